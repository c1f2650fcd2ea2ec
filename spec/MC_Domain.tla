------------------------------ MODULE MC_Domain ------------------------------
(***************************************************************************)
(* A point walking on a lattice in, on and around a body; what membership, *)
(* boundary and normals mean at every place it reaches.                    *)
(***************************************************************************)
EXTENDS Domain, Quad, Json
CONSTANTS Domains, Range
VARIABLES dom, pt, last        \* last: axis and direction of the last step

Cat == << [t |-> "box", lb |-> <<I(-1), Zero>>, ub |-> <<One, Two>>],
          [t |-> "box", lb |-> <<Zero, I(-1), Zero>>, ub |-> <<One, One, Two>>],
          [t |-> "ball", o |-> <<Zero, One>>, r |-> One],
          [t |-> "ball", o |-> <<Zero, Zero, One>>, r |-> One],
          [t |-> "annulus", o |-> <<Zero, Zero>>, r1 |-> One, r2 |-> Two],
          [t |-> "par", a |-> <<I(-1), Zero>>, b |-> <<One, One>>, c |-> <<Zero, Two>>],
          [t |-> "tri", a |-> <<I(-1), Zero>>, b |-> <<One, I(-1)>>, c |-> <<Zero, Two>>] >>
D == Cat[dom]
n == Dim(D)
X(p) == [i \in 1..Len(p) |-> Q(p[i], 2)]

Init == dom \in Domains /\ pt = [i \in 1..Dim(Cat[dom]) |-> 0] /\ last = <<0, 0>>
Next == /\ \E i \in 1..n, s \in {-1, 1} :
             /\ pt[i] + s \in (-Range)..Range
             /\ pt' = [pt EXCEPT ![i] = @ + s] /\ last' = <<i, s>>
        /\ UNCHANGED dom
Spec == Init /\ [][Next]_<<dom, pt, last>>

x == X(pt)
tiny == Ten(-12)
Inner == In(D, x, Opp(tiny))
Closed == In(D, x, tiny)
Small(z) == Le(RAbs(z), TwoTo(-80))
(* inside, boundary and outside partition the space, for the bodies whose boundary is specified *)
Trichotomy == D.t \in {"box", "ball", "par"} => (Closed <=> Inner \/ OnBnd(D, x, tiny)) /\ ~(Inner /\ OnBnd(D, x, Ten(-13)))
(* normals are units that lead out of the body, and their opposites do not lead out at once *)
OutwardUnits == (D.t \in {"box", "ball"} /\ OnBnd(D, x, tiny)) =>
   LET N == Normals(D, x, tiny) e == Q(1, 64) IN
   /\ N # {}
   /\ \A v \in N : Small(Sub(Dot(v, v), One)) /\ ~In(D, VAdd(x, VMul(e, v)), tiny) /\ In(D, VSub(x, VMul(e, v)), tiny)
   /\ (Cardinality(N) = 1 => In(D, VSub(x, VMul(e, CHOOSE v \in N : TRUE)), Opp(tiny)))
(* a step across the boundary leaves through a face whose normal it follows *)
LeavesOutward == (D.t = "box" /\ last # <<0, 0>>) =>
   LET y == X([pt EXCEPT ![last[1]] = @ - last[2]]) IN
   (OnBnd(D, y, tiny) /\ ~Closed) => \E v \in Normals(D, y, tiny) : v[last[1]] = I(last[2])
(* measures, shares and moments against the integrals of module Quad *)
XiXj(i, j) == << [c |-> One, e |-> [k \in 1..n |-> (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)]] >>
Const == << [c |-> One, e |-> [k \in 1..n |-> 0]] >>
e0 == <<One, Zero>>
Integral(p) ==
  CASE D.t = "box" -> PInt(p, D.lb, D.ub)
    [] D.t = "ball" /\ n = 2 -> DiskInt(p, Zero, D.r, D.o, e0, e0, Mul(Two, Pi))
    [] D.t = "ball" /\ n = 3 -> BallInt(p, Zero, D.r, D.o, e0, <<I(-1), Zero>>, Pi, e0, e0, Mul(Two, Pi))
    [] D.t = "annulus" -> DiskInt(p, D.r1, D.r2, D.o, e0, e0, Mul(Two, Pi))
Moments == (D.t \in {"box", "ball", "annulus"} /\ last = <<0, 0>>) =>
   /\ Small(Sub(Integral(Const), Measure(D)))
   /\ \A i \in 1..n, j \in 1..n : Small(Sub(Div(Integral(XiXj(i, j)), Measure(D)), Add(Covar(D, i, j), Mul(MeanOf(D)[i], MeanOf(D)[j]))))
SharesSum == (D.t \in {"box", "ball", "par"} /\ last = <<0, 0>>) => Small(Sub(SumSeq(Shares(D)), One))
EmitOK == PrintT("SCN " \o ToJson([dom |-> dom, pt |-> pt]))
=============================================================================
