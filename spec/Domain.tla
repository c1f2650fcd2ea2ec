------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Domains: membership, measure, low moments of the uniform distribution,  *)
(* boundary parts with their measures, outward normals.  A domain is       *)
(*  [t |-> "box", lb, ub]          [t |-> "ball", o, r] (disk in 2-d)      *)
(*  [t |-> "annulus", o, r1, r2]   [t |-> "par" | "tri", a, b, c]          *)
(*  [t |-> "line", p]  (a polyline, all of it boundary)                    *)
(***************************************************************************)
EXTENDS Reals, FiniteSets, TLC

VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], b[i])])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> Sub(a[i], b[i])])
VMul(s, a) == TLCEval([i \in 1..Len(a) |-> Mul(s, a[i])])
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> Mul(a[i], b[i])])
VNorm(a) == SqrtR(Dot(a, a))
VMax(a) == LET F[i \in 0..Len(a)] == IF i = 0 THEN Zero ELSE Max(RAbs(a[i]), F[i-1]) IN F[Len(a)]
ProdOf(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN One ELSE Mul(s[i], F[i-1]) IN F[Len(s)]

(* Determinant by expansion; Gram determinant of the columns of J           *)
RECURSIVE Det(_)
Minor(A, j) == [i \in 1..(Len(A) - 1) |-> [k \in 1..(Len(A) - 1) |-> A[i + 1][IF k < j THEN k ELSE k + 1]]]
Det(A) == IF Len(A) = 0 THEN One ELSE IF Len(A) = 1 THEN A[1][1] ELSE
          SumSeq([j \in 1..Len(A) |-> LET d == Mul(A[1][j], Det(Minor(A, j))) IN IF j % 2 = 1 THEN d ELSE Opp(d)])
Col(J, k) == [i \in 1..Len(J) |-> J[i][k]]
Gram(J) == LET m == Len(J[1]) IN TLCEval([a \in 1..m |-> [b \in 1..m |-> Dot(Col(J, a), Col(J, b))]])
Density(J) == SqrtR(Max(Zero, Det(Gram(J))))

Dim(D) == CASE D.t = "box" -> Len(D.lb) [] D.t \in {"ball", "annulus"} -> Len(D.o) [] D.t \in {"par", "tri"} -> Len(D.a) [] D.t = "line" -> Len(D.p[1])
Sides(D) == [i \in 1..Len(D.lb) |-> Sub(D.ub[i], D.lb[i])]
ParArea(a, b, c) == LET d == VSub(b, a) e == VSub(c, a) IN SqrtR(Max(Zero, Sub(Mul(Dot(d, d), Dot(e, e)), Sq(Dot(d, e)))))
Measure(D) ==
  CASE D.t = "box" -> ProdOf(Sides(D))
    [] D.t = "ball" -> IF Len(D.o) = 2 THEN Mul(Pi, Sq(D.r)) ELSE Mul(Mul(Q(4, 3), Pi), Mul(D.r, Sq(D.r)))
    [] D.t = "annulus" -> Mul(Pi, Sub(Sq(D.r2), Sq(D.r1)))
    [] D.t = "par" -> ParArea(D.a, D.b, D.c)
    [] D.t = "tri" -> Div(ParArea(D.a, D.b, D.c), Two)

(* coordinates of x in the frame a, b - a, c - a (least squares) and the    *)
(* squared distance of x from the plane                                     *)
Frame(D, x) == LET d == VSub(D.b, D.a) e == VSub(D.c, D.a) y == VSub(x, D.a)
                   g == Sub(Mul(Dot(d, d), Dot(e, e)), Sq(Dot(d, e)))
                   s == Div(Sub(Mul(Dot(e, e), Dot(d, y)), Mul(Dot(d, e), Dot(e, y))), g)
                   u == Div(Sub(Mul(Dot(d, d), Dot(e, y)), Mul(Dot(d, e), Dot(d, y))), g)
                   z == VSub(y, VAdd(VMul(s, d), VMul(u, e)))
               IN <<s, u, Dot(z, z)>>
(* x is in D up to the margin t (t < 0: well inside)                        *)
In(D, x, t) ==
  CASE D.t = "box" -> \A i \in 1..Len(x) : Le(Sub(D.lb[i], t), x[i]) /\ Le(x[i], Add(D.ub[i], t))
    [] D.t = "ball" -> LET y == VSub(x, D.o) IN Le(VNorm(y), Add(D.r, t))
    [] D.t = "annulus" -> LET n == VNorm(VSub(x, D.o)) IN Le(n, Add(D.r2, t)) /\ Le(Sub(D.r1, t), n)
    [] D.t \in {"par", "tri"} -> LET f == Frame(D, x) IN
         /\ Le(Opp(t), f[1]) /\ Le(Opp(t), f[2]) /\ Le(f[3], Sq(t))
         /\ IF D.t = "par" THEN Le(f[1], Add(One, t)) /\ Le(f[2], Add(One, t)) ELSE Le(Add(f[1], f[2]), Add(One, t))

(* First and second moments of the uniform distribution on D.               *)
MeanOf(D) == CASE D.t = "box" -> [i \in 1..Len(D.lb) |-> Div(Add(D.lb[i], D.ub[i]), Two)]
            [] D.t \in {"ball", "annulus"} -> D.o
            [] D.t = "par" -> [i \in 1..Len(D.a) |-> Div(Add(D.b[i], D.c[i]), Two)]
            [] D.t = "tri" -> [i \in 1..Len(D.a) |-> Div(Add(D.a[i], Add(D.b[i], D.c[i])), I(3))]
Covar(D, i, j) ==
  CASE D.t = "box" -> IF i = j THEN Div(Sq(Sub(D.ub[i], D.lb[i])), I(12)) ELSE Zero
    [] D.t = "ball" -> IF i = j THEN Div(Sq(D.r), I(Len(D.o) + 2)) ELSE Zero
    [] D.t = "annulus" -> IF i = j THEN Div(Add(Sq(D.r1), Sq(D.r2)), I(4)) ELSE Zero
    [] D.t = "par" -> LET d == VSub(D.b, D.a) e == VSub(D.c, D.a) IN Div(Add(Mul(d[i], d[j]), Mul(e[i], e[j])), I(12))
    [] D.t = "tri" -> LET d == VSub(D.b, D.a) e == VSub(D.c, D.a) IN
         Sub(Div(Add(Mul(d[i], d[j]), Mul(e[i], e[j])), I(18)), Div(Add(Mul(d[i], e[j]), Mul(e[i], d[j])), I(36)))

-----------------------------------------------------------------------------
(* The boundary: faces of the box (<<axis, 0 or 1>>), segments of a closed  *)
(* line; a parallelogram's boundary is the line a, b, b + c - a, c, a.      *)
Outline(D) == IF D.t = "line" THEN D.p ELSE << D.a, D.b, VSub(VAdd(D.b, D.c), D.a), D.c, D.a >>
SegLen(p, k) == VNorm(VSub(p[k+1], p[k]))
LineLen(p) == SumSeq([k \in 1..(Len(p) - 1) |-> SegLen(p, k)])
FaceMeasure(D, i) == LET s == Sides(D) IN ProdOf([k \in 1..Len(s) |-> IF k = i THEN One ELSE s[k]])
BndMeasure(D) ==
  CASE D.t = "box" -> Mul(Two, SumSeq([i \in 1..Len(D.lb) |-> FaceMeasure(D, i)]))
    [] D.t \in {"par", "line"} -> LineLen(Outline(D))
    [] D.t = "ball" -> IF Len(D.o) = 2 THEN Mul(Mul(Two, Pi), D.r) ELSE Mul(Mul(I(4), Pi), Sq(D.r))
(* Shares of the boundary parts: the 2n faces (all lower ones first), the   *)
(* segments, the 2^n orthants of the circle or sphere.                      *)
Shares(D) ==
  CASE D.t = "box" -> LET n == Len(D.lb) m == BndMeasure(D) IN [k \in 1..(2 * n) |-> Div(FaceMeasure(D, IF k > n THEN k - n ELSE k), m)]
    [] D.t \in {"par", "line"} -> LET p == Outline(D) m == LineLen(p) IN [k \in 1..(Len(p) - 1) |-> Div(SegLen(p, k), m)]
    [] D.t = "ball" -> [k \in 1..(2 ^ Len(D.o)) |-> Q(1, 2 ^ Len(D.o))]
SegDist2(p, k, x) ==   \* squared distance to segment k
  LET a == p[k] d == VSub(p[k+1], a) y == VSub(x, a) dd == Dot(d, d)
      s == IF IsZero(dd) THEN Zero ELSE Max(Zero, Min(One, Div(Dot(d, y), dd)))
      z == VSub(y, VMul(s, d)) IN Dot(z, z)
OnFace(D, i, side, x, t) ==
  /\ Le(RAbs(Sub(x[i], IF side = 0 THEN D.lb[i] ELSE D.ub[i])), t)
  /\ \A k \in 1..Len(x) : Le(Sub(D.lb[k], t), x[k]) /\ Le(x[k], Add(D.ub[k], t))
Faces(D) == {<<i, side>> : i \in 1..Len(D.lb), side \in {0, 1}}
OnBnd(D, x, t) ==
  CASE D.t = "box" -> \E f \in Faces(D) : OnFace(D, f[1], f[2], x, t)
    [] D.t = "ball" -> Le(RAbs(Sub(VNorm(VSub(x, D.o)), D.r)), t)
    [] D.t \in {"par", "line"} -> LET p == Outline(D) IN \E k \in 1..(Len(p) - 1) : Le(SegDist2(p, k, x), Sq(t))
(* The possible outward unit normals at x.                                  *)
FaceNormal(D, f) == [k \in 1..Len(D.lb) |-> IF k # f[1] THEN Zero ELSE IF f[2] = 0 THEN I(-1) ELSE One]
Normals(D, x, t) ==
  CASE D.t = "box" -> {FaceNormal(D, f) : f \in {g \in Faces(D) : OnFace(D, g[1], g[2], x, t)}}
    [] D.t = "ball" -> LET y == VSub(x, D.o) n == VNorm(y) IN {[i \in 1..Len(y) |-> Div(y[i], n)]}
=============================================================================
