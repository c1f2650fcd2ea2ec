import java.math.BigInteger;
import tlc2.value.impl.*;

/** Arbitrary-precision evaluation of the operators of Rat.tla marked (J). */
public class Rat {
  private static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);

  static final class R {
    final BigInteger n, d;                    // d > 0, coprime
    R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }

  static R norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return new R(BigInteger.ZERO, BigInteger.ONE);
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new R(n, d);
  }

  private static BigInteger nat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    if (e.length == 0) return BigInteger.ZERO;
    if (e.length == 1) return BigInteger.valueOf(((IntValue) e[0]).val);
    if (e.length == 2)
      return BigInteger.valueOf(((long) ((IntValue) e[1]).val << 30) | ((IntValue) e[0]).val);
    int bits = 30 * e.length;
    byte[] b = new byte[bits / 8 + 2];        // big endian
    for (int i = 0; i < e.length; i++) {
      long x = ((IntValue) e[i]).val & 0x3fffffffL;
      int off = 30 * i, by = off >> 3, sh = off & 7;
      x <<= sh;
      for (int j = 0; j < 5 && x != 0; j++, x >>>= 8)
        b[b.length - 1 - by - j] |= (byte) x;
    }
    return new BigInteger(1, b);
  }

  private static Value limbs(BigInteger n) {
    int k = (n.bitLength() + 29) / 30;
    Value[] e = new Value[k];
    if (k <= 2) {
      long x = n.longValue();
      for (int i = 0; i < k; i++, x >>>= 30) e[i] = IntValue.gen((int) (x & 0x3fffffffL));
      return new TupleValue(e);
    }
    byte[] b = n.toByteArray();               // big endian, non-negative
    for (int i = 0; i < k; i++) {
      int off = 30 * i, by = off >> 3, sh = off & 7;
      long x = 0;
      for (int j = 4; j >= 0; j--) {
        int p = b.length - 1 - by - j;
        x = (x << 8) | (p >= 0 ? (b[p] & 0xffL) : 0L);
      }
      e[i] = IntValue.gen((int) ((x >>> sh) & 0x3fffffffL));
    }
    return new TupleValue(e);
  }

  static R in(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    BigInteger n = nat(e[1]);
    if (((IntValue) e[0]).val < 0) n = n.negate();
    return new R(n, nat(e[2]));
  }

  static Value out(R r) {
    return new TupleValue(new Value[] {
      IntValue.gen(r.n.signum()), limbs(r.n.abs()), limbs(r.d) });
  }

  private static int i(Value v) { return ((IntValue) v).val; }
  private static BigInteger fdiv(BigInteger a, BigInteger b) { // floor, b > 0
    BigInteger[] qr = a.divideAndRemainder(b);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  public static Value Q(Value n, Value d) {
    return out(norm(BigInteger.valueOf(i(n)), BigInteger.valueOf(i(d))));
  }
  public static Value Add(Value a, Value b) {
    R x = in(a), y = in(b);
    if (x.d.equals(y.d)) return out(norm(x.n.add(y.n), x.d));
    return out(norm(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value Sub(Value a, Value b) {
    R x = in(a), y = in(b);
    if (x.d.equals(y.d)) return out(norm(x.n.subtract(y.n), x.d));
    return out(norm(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value Mul(Value a, Value b) {
    R x = in(a), y = in(b);
    return out(norm(x.n.multiply(y.n), x.d.multiply(y.d)));
  }
  public static Value Div(Value a, Value b) {
    R x = in(a), y = in(b);
    return out(norm(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  public static Value Opp(Value a) {
    R x = in(a);
    return out(new R(x.n.negate(), x.d));
  }
  private static int cmp(Value a, Value b) {
    R x = in(a), y = in(b);
    return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
  }
  public static Value Le(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Lt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Floor(Value a) {
    R x = in(a);
    return IntValue.gen(fdiv(x.n, x.d).intValueExact());
  }
  public static Value Round(Value a, Value k) {
    R x = in(a);
    if (x.d.bitLength() <= i(k) && x.d.bitCount() == 1) return a;
    return out(norm(fdiv(x.n.shiftLeft(i(k)), x.d), BigInteger.ONE.shiftLeft(i(k))));
  }
  public static Value Sqrt(Value a, Value k) {
    R x = in(a);
    if (x.n.signum() < 0) throw new RuntimeException("Rat: sqrt of a negative number");
    BigInteger m = fdiv(x.n.shiftLeft(2 * i(k)), x.d);
    return out(norm(m.sqrt(), BigInteger.ONE.shiftLeft(i(k))));
  }
  public static Value Root(Value a, Value n, Value k) {
    R x = in(a);
    int r = i(n);
    if (x.n.signum() < 0) throw new RuntimeException("Rat: root of a negative number");
    BigInteger m = fdiv(x.n.shiftLeft(r * i(k)), x.d);
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(m.bitLength() / r + 1);
    while (hi.subtract(lo).compareTo(BigInteger.ONE) > 0) {
      BigInteger mid = lo.add(hi).shiftRight(1);
      if (mid.pow(r).compareTo(m) <= 0) lo = mid; else hi = mid;
    }
    return out(norm(lo, BigInteger.ONE.shiftLeft(i(k))));
  }
  public static Value FromFloat(Value f) {
    Value[] e = ((TupleValue) f.toTuple()).elems;
    BigInteger m = BigInteger.valueOf(((long) i(e[0]) << 27) + i(e[1]));
    int x = i(e[2]);
    return out(x >= 0 ? norm(m.shiftLeft(x), BigInteger.ONE) : norm(m, BigInteger.ONE.shiftLeft(-x)));
  }
}
