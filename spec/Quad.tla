-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Quadrature: the composite rules on a partition, tensor products, and    *)
(* the exact moments of boxes, disk sectors and ball sectors.              *)
(* A rule is a sequence of <<weight, node>>; a partition is a sequence of  *)
(* breakpoints in any order.                                               *)
(***************************************************************************)
EXTENDS Poly, Reals, TLC

Flat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE F[i-1] \o s[i] IN F[Len(s)]
Pieces(d, R(_, _)) == TLCEval(Flat([i \in 1..(Len(d) - 1) |-> R(d[i], d[i+1])]))

MidPiece(a, b)  == << <<Sub(b, a), Div(Add(a, b), Two)>> >>
TrapPiece(a, b) == LET h == Div(Sub(b, a), Two) IN << <<h, a>>, <<h, b>> >>
SimpPiece(a, b) == LET h == Div(Sub(b, a), I(6)) IN << <<h, a>>, <<Mul(I(4), h), Div(Add(a, b), Two)>>, <<h, b>> >>

(* a rule a user may bring along, of no degree and no symmetry              *)
SkewPiece(a, b) == LET h == Sub(b, a) IN << <<Div(h, I(4)), Add(a, Div(h, I(3)))>>, <<Mul(Q(3, 4), h), Add(a, Mul(Q(3, 4), h))>> >>

(* Gauss-Legendre on [-1, 1]: roots of the Legendre polynomial P_n by       *)
(* Newton's method, weights 2 / ((1 - x^2) P_n'(x)^2).                      *)
RECURSIVE LegPair(_, _, _, _, _)    \* <<P_n, P_(n-1)>> at x
LegPair(n, x, k, p, q) == IF k = n THEN <<p, q>>
   ELSE LegPair(n, x, k + 1, RR(Div(Sub(Mul(I(2*k + 1), Mul(x, p)), Mul(I(k), q)), I(k + 1))), p)
Leg(n, x) == IF n = 0 THEN <<One, Zero>> ELSE LegPair(n, x, 1, x, One)
LegDer(n, x) == LET l == Leg(n, x) IN RR(Div(Mul(I(n), Sub(l[2], Mul(x, l[1]))), Sub(One, Sq(x))))
RECURSIVE Newton(_, _, _)
Newton(n, x, k) == IF k = 0 THEN x ELSE Newton(n, RR(Sub(x, Div(Leg(n, x)[1], LegDer(n, x)))), k - 1)
GaussNode(n, i) == IF n = 2*i - 1 THEN Zero
                   ELSE Newton(n, Cos(Div(Mul(Pi, Q(4*i - 1, 4)), Q(2*n + 1, 2))), 7)
GaussUnit(n) == [i \in 1..n |-> LET x == GaussNode(n, i) p == LegDer(n, x) IN
                                << RR(Div(Two, Mul(Sub(One, Sq(x)), Sq(p)))), x >>]
MaxGauss == 12
GaussTable == [n \in 1..MaxGauss |-> GaussUnit(n)]
GaussPiece(n, a, b) == LET h == Div(Sub(b, a), Two) c == Div(Add(a, b), Two) IN
   [i \in 1..n |-> << Mul(h, GaussTable[n][i][1]), Add(c, Mul(h, GaussTable[n][i][2])) >>]

(* r = [t |-> "midpoint" | "trap" | "simpson"] or [t |-> "gauss", n |-> k]  *)
Rule(r, d) == CASE r.t = "midpoint" -> Pieces(d, MidPiece)
                [] r.t = "trap" -> Pieces(d, TrapPiece)
                [] r.t = "simpson" -> Pieces(d, SimpPiece)
                [] r.t = "skew" -> Pieces(d, SkewPiece)
                [] r.t = "gauss" -> Pieces(d, LAMBDA a, b : GaussPiece(r.n, a, b))
Degree(r) == CASE r.t \in {"midpoint", "trap"} -> 1 [] r.t = "simpson" -> 3 [] r.t = "skew" -> 0 [] r.t = "gauss" -> 2 * r.n - 1

RECURSIVE PowSumFrom(_, _, _)
PowSumFrom(ru, k, i) == IF i > Len(ru) THEN Zero ELSE Add(Mul(ru[i][1], Pow(ru[i][2], k)), PowSumFrom(ru, k, i + 1))
PowSum(ru, k) == PowSumFrom(ru, k, 1)          \* the rule applied to x^k
Moment(a, b, k) == Div(Sub(Pow(b, k + 1), Pow(a, k + 1)), I(k + 1))

(* A polynomial under the tensor product of one rule per axis.              *)
RECURSIVE MonoQuad(_, _, _)
MonoQuad(e, M, i) == IF i > Len(e) THEN One ELSE Mul(M[i][e[i] + 1], MonoQuad(e, M, i + 1))
(* M[i][k+1] is what axis i gives for x^k                                   *)
TensorQuad(p, M) == SumSeq([k \in 1..Len(p) |-> Mul(p[k].c, MonoQuad(p[k].e, M, 1))])

-----------------------------------------------------------------------------
(* Integrals of cos^m sin^l over an angle interval, from the cosines and    *)
(* sines of its ends; w is its width.                                       *)
RECURSIVE TrigPart(_, _, _, _)   \* antiderivative without the linear part: <<value at (c, s), factor of the angle>>
TrigPart(m, l, c, s) ==
  IF m >= 2 THEN LET r == TrigPart(m - 2, l, c, s) f == Q(m - 1, m + l) IN
                 << Add(Div(Mul(Pow(c, m - 1), Pow(s, l + 1)), I(m + l)), Mul(f, r[1])), Mul(f, r[2]) >>
  ELSE IF l >= 2 THEN LET r == TrigPart(m, l - 2, c, s) f == Q(l - 1, m + l) IN
                 << Sub(Mul(f, r[1]), Div(Mul(Pow(c, m + 1), Pow(s, l - 1)), I(m + l))), Mul(f, r[2]) >>
  ELSE IF m = 1 /\ l = 1 THEN << Div(Sq(s), Two), Zero >>
  ELSE IF m = 1 THEN << s, Zero >>
  ELSE IF l = 1 THEN << Opp(c), Zero >>
  ELSE << Zero, One >>
TrigInt(m, l, e1, e2, w) == LET a == TrigPart(m, l, e1[1], e1[2]) b == TrigPart(m, l, e2[1], e2[2]) IN
                            RR(Add(Sub(b[1], a[1]), Mul(b[2], w)))

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

(* integral of x^a y^b about the origin over r in [r1, r2], angle e1..e2    *)
DiskMono(a, b, r1, r2, e1, e2, w) == Mul(Moment(r1, r2, a + b + 1), TrigInt(a, b, e1, e2, w))
(* polar angle f (from the z axis), azimuth t: x = r sin f cos t, ...       *)
BallMono(a, b, c, r1, r2, f1, f2, wf, t1, t2, wt) ==
  Mul(Moment(r1, r2, a + b + c + 2), Mul(TrigInt(c, a + b + 1, f1, f2, wf), TrigInt(a, b, t1, t2, wt)))

(* p about the centre o: substitute x + o.                                  *)
RECURSIVE ShiftMono(_, _, _)
ShiftMono(e, o, i) ==   \* sequence of [c, e]
  IF i > Len(e) THEN << [c |-> One, e |-> [j \in 1..Len(e) |-> 0]] >>
  ELSE LET rest == ShiftMono(e, o, i + 1) IN
       Flat([k \in 1..(e[i] + 1) |->
              [j \in 1..Len(rest) |-> [c |-> Mul(rest[j].c, Mul(I(Binom(e[i], k - 1)), Pow(o[i], e[i] - k + 1))),
                                       e |-> [rest[j].e EXCEPT ![i] = k - 1]]]])
Shift(p, o) == TLCEval(Flat([k \in 1..Len(p) |-> PScale(ShiftMono(p[k].e, o, 1), p[k].c)]))

DiskInt(p, r1, r2, o, e1, e2, w) ==
  LET q == Shift(p, o) IN SumSeq([k \in 1..Len(q) |-> IF IsZero(q[k].c) THEN Zero
      ELSE Mul(q[k].c, DiskMono(q[k].e[1], q[k].e[2], r1, r2, e1, e2, w))])
BallInt(p, r1, r2, o, f1, f2, wf, t1, t2, wt) ==
  LET q == Shift(p, o) IN SumSeq([k \in 1..Len(q) |-> IF IsZero(q[k].c) THEN Zero
      ELSE Mul(q[k].c, BallMono(q[k].e[1], q[k].e[2], q[k].e[3], r1, r2, f1, f2, wf, t1, t2, wt))])

(* The same integrals under a rule: tensor grid in the polar parameters.    *)
Linspace(a, b, n) == [i \in 1..n |-> Add(a, Mul(Sub(b, a), Q(i - 1, n - 1)))]
TrigQuad(ru, m, l) == SumSeq([i \in 1..Len(ru) |-> Mul(ru[i][1], Mul(Pow(ru[i][3][1], m), Pow(ru[i][3][2], l)))])
WithTrig(ru) == TLCEval([i \in 1..Len(ru) |-> <<ru[i][1], ru[i][2], CosSin(ru[i][2])>>])
DiskQuad(p, rr, ra, o) ==   \* rules in radius and angle
  LET q == Shift(p, o) IN SumSeq([k \in 1..Len(q) |-> IF IsZero(q[k].c) THEN Zero
      ELSE LET a == q[k].e[1] b == q[k].e[2] IN Mul(q[k].c, Mul(PowSum(rr, a + b + 1), TrigQuad(ra, a, b)))])
BallQuad(p, rr, rf, rt, o) ==
  LET q == Shift(p, o) IN SumSeq([k \in 1..Len(q) |-> IF IsZero(q[k].c) THEN Zero
      ELSE LET a == q[k].e[1] b == q[k].e[2] c == q[k].e[3] IN
           Mul(q[k].c, Mul(PowSum(rr, a + b + c + 2), Mul(TrigQuad(rf, c, a + b + 1), TrigQuad(rt, a, b))))])
=============================================================================
