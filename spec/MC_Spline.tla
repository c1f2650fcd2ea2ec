----------------------------- MODULE MC_Spline -----------------------------
(***************************************************************************)
(* Knot vectors are grown gap by gap (gap 0: a repeated knot) and then     *)
(* read at every half step, for every degree.                              *)
(***************************************************************************)
EXTENDS Spline, Json, FiniteSets
CONSTANTS MaxKnots, Gaps, Degrees
VARIABLES gaps, deg, pt

T == LET F[j \in 0..Len(gaps)] == IF j = 0 THEN 0 ELSE F[j - 1] + gaps[j] IN TLCEval([j \in 1..(Len(gaps) + 1) |-> I(F[j - 1])])
X == Q(pt, 2)
Total == LET F[j \in 0..Len(gaps)] == IF j = 0 THEN 0 ELSE F[j - 1] + gaps[j] IN F[Len(gaps)]

Init == gaps = <<>> /\ deg \in Degrees /\ pt = -1
Grow == /\ pt = -1 /\ Len(gaps) + 1 < MaxKnots /\ \E g \in Gaps : gaps' = Append(gaps, g)
        /\ UNCHANGED <<deg, pt>>
Move == /\ Len(gaps) >= deg + 1 /\ pt <= 2 * Total /\ pt' = pt + 1 /\ UNCHANGED <<gaps, deg>>
Next == Grow \/ Move
Spec == Init /\ [][Next]_<<gaps, deg, pt>>

Ready == Len(gaps) >= deg + 1
Bs == Basis("r", X, deg, T)
NonNegative == Ready => \A i \in 1..Len(Bs) : ~NegQ(Bs[i])
Support == Ready => \A i \in 1..Len(Bs) : (Lt(X, T[i]) \/ Le(T[i + deg + 1], X)) => IsZero(Bs[i])
PartitionOfUnity == Ready /\ Len(T) >= 2 * deg + 2 /\ Inside(X, deg, T) => SumSeq(Bs) = One
(* the line is its own spline, with the means of deg neighbouring knots as coefficients *)
LinearPrecision == Ready /\ deg > 0 /\ Len(T) >= 2 * deg + 2 /\ Inside(X, deg, T) =>
   SumSeq([i \in 1..Len(Bs) |-> Mul(Bs[i], Div(SumSeq(SubSeq(T, i + 1, i + deg)), I(deg)))]) = X
DerivativesCancel == Ready /\ Len(T) >= 2 * deg + 2 /\ Inside(X, deg, T) =>
   SumSeq([i \in 1..Len(Bs) |-> DB("r", 1, X, deg, i, T)]) = Zero
(* both sides agree away from the knots and, above the multiplicity, at them *)
Mult(x) == Cardinality({j \in 1..Len(T) : T[j] = x})
Continuous == Ready /\ Mult(X) <= deg => Bs = Basis("l", X, deg, T)
Smooth == Ready /\ Mult(X) <= deg - 1 => \A i \in 1..Len(Bs) : DB("r", 1, X, deg, i, T) = DB("l", 1, X, deg, i, T)
(* moving the point, and moving the knots the other way, are the same *)
DT(d) == TLCEval([j \in 1..Len(T) |-> Dual(T[j], d)])
Duality == Ready /\ ~AtKnot(X, T) => \A i \in 1..Len(Bs) :
   LET a == BD("r", Dual(X, One), deg, i, DT(Zero)) b == BD("r", Dual(X, Zero), deg, i, DT(Opp(One))) IN
   /\ a[1] = Bs[i] /\ a[2] = DB("r", 1, X, deg, i, T) /\ b[2] = a[2] /\ Le(RAbs(a[2]), a[3])
(* scaling the axis about any centre leaves the values alone *)
Affine == Ready => Bs = Basis("r", Add(Mul(I(3), X), Q(1, 7)), deg, TLCEval([j \in 1..Len(T) |-> Add(Mul(I(3), T[j]), Q(1, 7))]))
GridOK == gaps = <<>> => \A num \in 2..7 : \A p \in {<<1, 1>>, <<2, 1>>, <<3, 1>>} :
   LET g == Grid(Q(-3, 2), I(4), p[1], p[2], num) IN
   /\ g[1] = Q(-3, 2) /\ g[num] = I(4)
   /\ \A j \in 1..(num - 1) : Lt(g[j], g[j + 1])
   /\ \A j \in 1..num : Add(g[j], g[num + 1 - j]) = Q(5, 2)
   /\ p[1] = 1 => \A j \in 1..(num - 1) : Sub(g[j + 1], g[j]) = Div(Q(11, 2), I(num - 1))
EmitOK == Ready /\ pt = -1 => PrintT("SCN " \o ToJson([gaps |-> gaps, deg |-> deg]))
=============================================================================
