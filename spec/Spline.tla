------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* B-splines on a non-decreasing knot vector t: B(s, x, k, i, t) is the    *)
(* i-th basis function of degree k at x (i from 1), with 0/0 read as 0.    *)
(* Pieces are half-open: side "r" takes the piece to the right of a knot   *)
(* (what the code does), side "l" the one to the left.                     *)
(***************************************************************************)
EXTENDS Reals, Sequences, TLC

In(s, x, lo, hi) == IF s = "r" THEN Le(lo, x) /\ Lt(x, hi) ELSE Lt(lo, x) /\ Le(x, hi)
RECURSIVE B(_, _, _, _, _)
B(s, x, k, i, t) ==
  IF k = 0 THEN (IF In(s, x, t[i], t[i + 1]) THEN One ELSE Zero)
  ELSE IF Lt(x, t[i]) \/ Lt(t[i + k + 1], x) THEN Zero
  ELSE LET d1 == Sub(t[i + k], t[i]) d2 == Sub(t[i + k + 1], t[i + 1])
           c1 == IF IsZero(d1) THEN Zero ELSE Mul(Div(Sub(x, t[i]), d1), B(s, x, k - 1, i, t))
           c2 == IF IsZero(d2) THEN Zero ELSE Mul(Div(Sub(t[i + k + 1], x), d2), B(s, x, k - 1, i + 1, t))
       IN Add(c1, c2)
NumBasis(k, t) == Len(t) - k - 1
Basis(s, x, k, t) == TLCEval([i \in 1..NumBasis(k, t) |-> B(s, x, k, i, t)])

(* r-th derivative with respect to x *)
RECURSIVE DB(_, _, _, _, _, _)
DB(s, r, x, k, i, t) ==
  IF r = 0 THEN B(s, x, k, i, t)
  ELSE IF k = 0 THEN Zero
  ELSE LET d1 == Sub(t[i + k], t[i]) d2 == Sub(t[i + k + 1], t[i + 1]) IN
       Mul(I(k), Sub(IF IsZero(d1) THEN Zero ELSE Div(DB(s, r - 1, x, k - 1, i, t), d1),
                     IF IsZero(d2) THEN Zero ELSE Div(DB(s, r - 1, x, k - 1, i + 1, t), d2)))
(* its size before cancellation *)
RECURSIVE MB(_, _, _, _, _, _)
MB(s, r, x, k, i, t) ==
  IF r = 0 THEN B(s, x, k, i, t)
  ELSE IF k = 0 THEN Zero
  ELSE LET d1 == Sub(t[i + k], t[i]) d2 == Sub(t[i + k + 1], t[i + 1]) IN
       Mul(I(k), Add(IF IsZero(d1) THEN Zero ELSE Div(MB(s, r - 1, x, k - 1, i, t), d1),
                     IF IsZero(d2) THEN Zero ELSE Div(MB(s, r - 1, x, k - 1, i + 1, t), d2)))

(* Derivative along (dx, dt), the knots moving too: dual numbers <<v, d, m>>, *)
(* m the size of the terms summed in d.                                       *)
DMul(a, b) == <<Mul(a[1], b[1]), Add(Mul(a[1], b[2]), Mul(a[2], b[1])), Add(Mul(RAbs(a[1]), b[3]), Mul(a[3], RAbs(b[1])))>>
DAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
DSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Add(a[3], b[3])>>
DInv(a) == LET q == Inv(a[1]) IN <<q, Opp(Mul(a[2], Sq(q))), Mul(a[3], Sq(q))>>
DZero == <<Zero, Zero, Zero>>
Dual(v, d) == <<v, d, RAbs(d)>>
RECURSIVE BD(_, _, _, _, _)
BD(s, x, k, i, t) ==                  \* x and t[j] dual numbers
  IF k = 0 THEN (IF In(s, x[1], t[i][1], t[i + 1][1]) THEN <<One, Zero, Zero>> ELSE DZero)
  ELSE LET d1 == DSub(t[i + k], t[i]) d2 == DSub(t[i + k + 1], t[i + 1])
           c1 == IF IsZero(d1[1]) THEN DZero ELSE DMul(DMul(DSub(x, t[i]), DInv(d1)), BD(s, x, k - 1, i, t))
           c2 == IF IsZero(d2[1]) THEN DZero ELSE DMul(DMul(DSub(t[i + k + 1], x), DInv(d2)), BD(s, x, k - 1, i + 1, t))
       IN DAdd(c1, c2)
AtKnot(x, t) == \E j \in 1..Len(t) : t[j] = x
Inside(x, k, t) == Le(t[k + 1], x) /\ Lt(x, t[Len(t) - k])
SplineAt(s, x, c, k, t) == LET b == Basis(s, x, k, t) IN SumSeq([i \in 1..Len(b) |-> Mul(c[i], b[i])])

(* The generated grid: num nodes, odd power-law spacing about the centre.     *)
(* The power is pn / pd.                                                      *)
UnitNode(j, num) == Q(2 * j - num - 1, num - 1)         \* j in 1..num, from -1 to 1
PowR(a, pn, pd) == IF pd = 1 THEN Pow(a, pn) ELSE Root(Pow(a, pn), pd, KP)
GridNode(start, stop, pn, pd, num, j) ==
  LET u == UnitNode(j, num) a == PowR(RAbs(u), pn, pd) v == IF NegQ(u) THEN Opp(a) ELSE a IN
  Add(start, Mul(Sub(stop, start), Div(Add(v, One), Two)))
Grid(start, stop, pn, pd, num) == TLCEval([j \in 1..num |-> GridNode(start, stop, pn, pd, num, j)])
=============================================================================
