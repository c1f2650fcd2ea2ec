------------------------------- MODULE MC_Bnd -------------------------------
(***************************************************************************)
(* A parameter sweeping its interval drives a point along the boundary of  *)
(* a rectangle or polyline at constant speed (one admissible boundary map):*)
(* every part is visited for a share of the time proportional to its       *)
(* length.  Parameters reached are scenarios.                              *)
(***************************************************************************)
EXTENDS Domain, Json
CONSTANTS Lines, Steps
VARIABLES line, k, visits

Cat == << << <<Zero, Zero>>, <<I(3), Zero>>, <<I(3), I(4)>>, <<Zero, Zero>> >>,                       \* 3-4-5 triangle
          << <<Zero, Zero>>, <<I(2), Zero>>, <<I(2), One>>, <<Zero, One>>, <<Zero, Zero>> >>,           \* box
          << <<One, Zero, Zero>>, <<One, I(2), Zero>>, <<One, I(2), I(3)>>, <<I(5), I(2), I(6)>> >>,    \* open, in space
          << <<Zero, Zero>>, <<I(4), I(3)>>, <<I(4), I(3)>>, <<One, I(7)>> >> >>                        \* with a repeated point
P == Cat[line]
RECURSIVE Walk(_, _, _)   \* the point at arc length s from vertex i on, and its segment
Walk(p, s, i) == IF i = Len(p) - 1 \/ Le(s, SegLen(p, i)) THEN
                    << (IF IsZero(SegLen(p, i)) THEN p[i] ELSE VAdd(p[i], VMul(Div(s, SegLen(p, i)), VSub(p[i+1], p[i])))), i >>
                 ELSE Walk(p, Sub(s, SegLen(p, i)), i + 1)
At(p, s) == Walk(p, Mul(s, LineLen(p)), 1)

Init == line \in Lines /\ k = 0 /\ visits = [i \in 1..(Len(Cat[line]) - 1) |-> 0]
Next == /\ k < Steps /\ k' = k + 1
        /\ visits' = [visits EXCEPT ![At(P, Q(2 * k + 1, 2 * Steps))[2]] = @ + 1]
        /\ UNCHANGED line
Spec == Init /\ [][Next]_<<line, k, visits>>

LD == [t |-> "line", p |-> P]
OnIt == OnBnd(LD, At(P, Q(k, Steps))[1], Ten(-12))
Speed == k > 0 => Le(VNorm(VSub(At(P, Q(k, Steps))[1], At(P, Q(k - 1, Steps))[1])), Add(Div(LineLen(P), I(Steps)), Ten(-12)))
Fair == k = Steps => \A i \in 1..Len(visits) : Le(RAbs(Sub(I(visits[i]), Mul(I(Steps), Shares(LD)[i]))), Two)
Ends == (k = 0 => At(P, Zero)[1] = P[1]) /\ (k = Steps => Le(VNorm(VSub(At(P, One)[1], P[Len(P)])), Ten(-12)))
EmitOK == PrintT("SCN " \o ToJson([line |-> line, s |-> <<k, Steps>>]))
=============================================================================
