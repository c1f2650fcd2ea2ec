-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Quaternions <<a, b, c, d>> = a + bi + cj + dk over the rationals, their *)
(* arithmetic, rotations and reflections, and the stack machine on which   *)
(* every expression in them is a program.                                  *)
(***************************************************************************)
EXTENDS Reals, Sequences, Integers

QAdd(p, q) == [i \in 1..4 |-> Add(p[i], q[i])]
QSub(p, q) == [i \in 1..4 |-> Sub(p[i], q[i])]
QNeg(p)    == [i \in 1..4 |-> Opp(p[i])]
QConj(p)   == <<p[1], Opp(p[2]), Opp(p[3]), Opp(p[4])>>
QScale(p, s) == [i \in 1..4 |-> Mul(p[i], s)]
QShift(p, s) == [i \in 1..4 |-> Add(p[i], s)]   \* a plain number combines with all components
Sum4(a, b, c, d) == Add(Add(a, b), Add(c, d))
(* Hamilton product: i^2 = j^2 = k^2 = ijk = -1.                            *)
QMul(p, q) ==
  << Sum4(Mul(p[1],q[1]), Opp(Mul(p[2],q[2])), Opp(Mul(p[3],q[3])), Opp(Mul(p[4],q[4]))),
     Sum4(Mul(p[1],q[2]), Mul(p[2],q[1]), Mul(p[3],q[4]), Opp(Mul(p[4],q[3]))),
     Sum4(Mul(p[1],q[3]), Opp(Mul(p[2],q[4])), Mul(p[3],q[1]), Mul(p[4],q[2])),
     Sum4(Mul(p[1],q[4]), Mul(p[2],q[3]), Opp(Mul(p[3],q[2])), Mul(p[4],q[1])) >>
QNorm2(p) == Sum4(Sq(p[1]), Sq(p[2]), Sq(p[3]), Sq(p[4]))
QRecip(p) == QScale(QConj(p), Inv(QNorm2(p)))
QZero == <<Zero, Zero, Zero, Zero>>
QOne  == <<One, Zero, Zero, Zero>>
QPure(x) == <<Zero, x[1], x[2], x[3]>>
QImag(p) == <<p[2], p[3], p[4]>>

(* Rotation q^-1 x q and reflection at the plane with normal n.             *)
QRot(x, q) == QImag(QScale(QMul(QMul(QConj(q), QPure(x)), q), Inv(QNorm2(q))))
Dot3(x, y) == Add(Add(Mul(x[1], y[1]), Mul(x[2], y[2])), Mul(x[3], y[3]))
Cross3(x, y) == << Sub(Mul(x[2],y[3]), Mul(x[3],y[2])), Sub(Mul(x[3],y[1]), Mul(x[1],y[3])), Sub(Mul(x[1],y[2]), Mul(x[2],y[1])) >>
Refl(x, n) == LET f == Div(Mul(Two, Dot3(x, n)), Dot3(n, n))
              IN  [i \in 1..3 |-> Sub(x[i], Mul(f, n[i]))]

RECURSIVE QPowNat(_, _)
QPowNat(q, n) == IF n = 0 THEN QOne ELSE QMul(q, QPowNat(q, n - 1))
QPowInt(q, n) == IF n >= 0 THEN QPowNat(q, n) ELSE QPowNat(QRecip(q), -n)

(* exp(a + v) = e^a (cos |v| + v/|v| sin |v|)                               *)
QExp(q) == LET n2 == Dot3(QImag(q), QImag(q))
               r  == SqrtR(n2)
               cs == CosSin(r)
               z  == Exp(q[1])
               f  == IF IsZero(r) THEN Zero ELSE Div(Mul(z, cs[2]), r)
           IN  << Mul(z, cs[1]), Mul(f, q[2]), Mul(f, q[3]), Mul(f, q[4]) >>
(* Unit quaternions of a rotation by an angle about an axis, and of Euler   *)
(* angles (about x first, then y, then z).                                  *)
QAxis(t, ax) == LET cs == CosSin(Div(t, Two))
                    f  == Div(cs[2], SqrtR(Dot3(ax, ax)))
                IN  << cs[1], Mul(f, ax[1]), Mul(f, ax[2]), Mul(f, ax[3]) >>
EX == <<One, Zero, Zero>>
EY == <<Zero, One, Zero>>
EZ == <<Zero, Zero, One>>
QEuler(t) == QMul(QMul(QAxis(t[3], EZ), QAxis(t[2], EY)), QAxis(t[1], EX))

(* Magnitude used to scale rounding allowances.                             *)
Mag(p) == Add(Add(RAbs(p[1]), RAbs(p[2])), Add(RAbs(p[3]), RAbs(p[4])))

(* Programs: a program is a sequence of instructions on a stack of          *)
(* quaternions.  Arity and meaning of every instruction; s is the immediate *)
(* scalar of the instructions that have one.                                *)
Binary == {"add", "sub", "mul", "div", "ldiv", "rdiv"}
Unary  == {"neg", "conj", "recip", "copy", "tree"}
Scalar == {"adds", "radds", "subs", "rsubs", "muls", "rmuls", "divs"}
Apply2(op, p, q) == CASE op = "add" -> QAdd(p, q) [] op = "sub" -> QSub(p, q)
                      [] op = "mul" -> QMul(p, q) [] op \in {"div", "rdiv"} -> QMul(p, QRecip(q))
                      [] op = "ldiv" -> QMul(QRecip(q), p)
Apply1(op, p) == CASE op = "neg" -> QNeg(p) [] op = "conj" -> QConj(p) [] op = "recip" -> QRecip(p)
                   [] op \in {"copy", "tree"} -> p
ApplyS(op, p, s) == CASE op \in {"adds", "radds"} -> QShift(p, s) [] op = "subs" -> QShift(p, Opp(s))
                      [] op = "rsubs" -> QShift(QNeg(p), s) [] op \in {"muls", "rmuls"} -> QScale(p, s)
                      [] op = "divs" -> QScale(p, Inv(s))
Invertible(p) == ~IsZero(QNorm2(p))
NeedsInverse == {"div", "ldiv", "rdiv"}
=============================================================================
