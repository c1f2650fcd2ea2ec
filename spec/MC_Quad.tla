------------------------------ MODULE MC_Quad ------------------------------
(***************************************************************************)
(* Partitions grown by every sequence of increments (also backwards and    *)
(* degenerate) under every rule; each state is a scenario.                 *)
(***************************************************************************)
EXTENDS Quad, Json
CONSTANTS MaxLen, Rules
VARIABLES rule, d, hs, acc      \* acc[k+1]: the rule's sum for x^k, grown piece by piece

Incs == {Q(1, 2), One, Q(-1, 4), Q(5, 4)}
Ru == CASE rule = "midpoint" -> [t |-> "midpoint"] [] rule = "trap" -> [t |-> "trap"] [] rule = "simpson" -> [t |-> "simpson"]
       [] rule = "gauss1" -> [t |-> "gauss", n |-> 1] [] rule = "gauss2" -> [t |-> "gauss", n |-> 2]
       [] rule = "gauss3" -> [t |-> "gauss", n |-> 3] [] rule = "gauss5" -> [t |-> "gauss", n |-> 5]
KMax == 6
Ks == 0..KMax
Init == rule \in Rules /\ d = <<Q(-1, 2)>> /\ hs = <<>> /\ acc = [k \in 1..(KMax + 1) |-> Zero]
Next == /\ Len(hs) < MaxLen
        /\ \E h \in Incs : LET a == d[Len(d)] b == Add(a, h) IN
             /\ d' = Append(d, b)
             /\ hs' = Append(hs, h)
             /\ acc' = [k \in 1..(KMax + 1) |-> Round(Add(acc[k], PowSum(Rule(Ru, <<a, b>>), k - 1)), 130)]
        /\ UNCHANGED rule
Spec == Init /\ [][Next]_<<rule, d, hs, acc>>

first == d[1]
last == d[Len(d)]
Small(x) == Le(RAbs(x), TwoTo(-90))
(* the rule of the whole partition is the sum over its pieces *)
Additive == \A k \in Ks : Small(Sub(acc[k + 1], PowSum(Rule(Ru, d), k)))
ExactToDegree == \A k \in Ks : k <= Degree(Ru) => Small(Sub(acc[k + 1], Moment(first, last, k)))
(* and no further: the degree is sharp on monotone partitions *)
Sharp == (Len(hs) = 1 /\ Degree(Ru) + 1 <= KMax) => ~Small(Sub(acc[Degree(Ru) + 2], Moment(first, last, Degree(Ru) + 1)))
WeightsSum == Small(Sub(acc[1], Sub(last, first)))
NodesInside == Len(d) > 1 => LET ru == Rule(Ru, d) IN \A i \in 1..Len(ru) :
   \E j \in 1..(Len(d) - 1) : Le(Min(d[j], d[j+1]), ru[i][2]) /\ Le(ru[i][2], Max(d[j], d[j+1]))
EmitOK == Len(hs) >= 1 => PrintT("SCN " \o ToJson([rule |-> rule,
   hs |-> [k \in 1..Len(hs) |-> <<hs[k][1] * hs[k][2][1], hs[k][3][1]>>]]))
=============================================================================
