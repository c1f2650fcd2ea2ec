-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic, the number system of the whole specification.*)
(*                                                                         *)
(* A rational is a canonical triple <<s, N, D>>: s is the sign, N and D    *)
(* are the numerator's and denominator's magnitudes as little-endian limb  *)
(* sequences in base 2^30, coprime, without leading zeros.  Canonical      *)
(* triples are equal iff the rationals are, so rationals can live in state *)
(* variables and in JSON.                                                  *)
(*                                                                         *)
(* The definitions below are the meaning of every operator over TLA+'s     *)
(* unbounded integers.  TLC's integers have 32 bits, so TLC evaluates the  *)
(* operators marked (J) with the Java class Rat of the same name           *)
(* (java/Rat.java, arbitrary precision); RatTest.tla checks those against  *)
(* the definitions wherever TLC can evaluate both.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 1073741824

RECURSIVE NatOf(_)
NatOf(l) == IF l = <<>> THEN 0 ELSE Head(l) + BASE * NatOf(Tail(l))
RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o LimbsOf(n \div BASE)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1

Num(q) == q[1] * NatOf(q[2])
Den(q) == NatOf(q[3])

(* The rational n/d for integers n, d with d # 0.                          *)
MkDef(n, d) ==
  LET g == Gcd(Abs(n), Abs(d))
  IN  <<Sgn(n) * Sgn(d), LimbsOf(Abs(n) \div g), LimbsOf(Abs(d) \div g)>>
AddDef(a, b) == MkDef(Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b))
SubDef(a, b) == MkDef(Num(a) * Den(b) - Num(b) * Den(a), Den(a) * Den(b))
MulDef(a, b) == MkDef(Num(a) * Num(b), Den(a) * Den(b))
DivDef(a, b) == MkDef(Num(a) * Den(b), Den(a) * Num(b))
OppDef(a)    == <<-a[1], a[2], a[3]>>
LeDef(a, b)  == Num(a) * Den(b) <= Num(b) * Den(a)
LtDef(a, b)  == Num(a) * Den(b) <  Num(b) * Den(a)
FloorDef(a)  == Num(a) \div Den(a)

Q(n, d)  == MkDef(n, d)          \* (J)
Add(a, b) == AddDef(a, b)        \* (J)
Sub(a, b) == SubDef(a, b)        \* (J)
Mul(a, b) == MulDef(a, b)        \* (J)
Div(a, b) == DivDef(a, b)        \* (J)
Opp(a)    == OppDef(a)           \* (J)
Le(a, b)  == LeDef(a, b)         \* (J)
Lt(a, b)  == LtDef(a, b)         \* (J)
Floor(a)  == FloorDef(a)         \* (J) as a TLA+ integer

(* Rounding to a multiple of 2^-k (downwards) keeps numbers short.         *)
RoundDef(a, k) == MkDef((Num(a) * 2^k) \div Den(a), 2^k)
Round(a, k) == RoundDef(a, k)    \* (J)

(* Integer square root, and the largest multiple r of 2^-k with r*r <= a.  *)
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
SqrtDef(a, k) == MkDef(ISqrt((Num(a) * 2^(2*k)) \div Den(a)), 2^k)
Sqrt(a, k) == SqrtDef(a, k)      \* (J)

(* The largest multiple r of 2^-k with r^n <= a, for a >= 0 and n >= 1.    *)
IRoot(m, n) == CHOOSE r \in 0..m : r^n <= m /\ (r + 1)^n > m
RootDef(a, n, k) == MkDef(IRoot((Num(a) * 2^(n*k)) \div Den(a), n), 2^k)
Root(a, n, k) == RootDef(a, n, k) \* (J)

(* The number a recorded float denotes: <<hi, lo, e, kind>> stands for      *)
(* (hi * 2^27 + lo) * 2^e if kind = 0; kinds 1, 2, 3 are nan, +inf, -inf.   *)
FloatDef(f) == IF f[3] >= 0 THEN MkDef((f[1] * 2^27 + f[2]) * 2^f[3], 1)
                            ELSE MkDef(f[1] * 2^27 + f[2], 2^(-f[3]))
FromFloat(f) == FloatDef(f)      \* (J)

-----------------------------------------------------------------------------
Zero == Q(0, 1)
One  == Q(1, 1)
Two  == Q(2, 1)
Half == Q(1, 2)
I(n) == Q(n, 1)

RAbs(a) == IF a[1] < 0 THEN Opp(a) ELSE a
Pos(a)  == a[1] > 0
NegQ(a) == a[1] < 0
IsZero(a) == a[1] = 0
Max(a, b) == IF Le(a, b) THEN b ELSE a
Min(a, b) == IF Le(a, b) THEN a ELSE b
Sq(a) == Mul(a, a)
Inv(a) == Div(One, a)

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One
             ELSE IF n % 2 = 0 THEN LET h == Pow(a, n \div 2) IN Mul(h, h)
             ELSE Mul(a, Pow(a, n - 1))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

(* 2^-n and 10^-n as tolerances.                                           *)
TwoTo(n) == IF n >= 0 THEN Pow(Two, n) ELSE Inv(Pow(Two, -n))
Ten(n)   == IF n >= 0 THEN Pow(I(10), n) ELSE Inv(Pow(I(10), -n))
=============================================================================
