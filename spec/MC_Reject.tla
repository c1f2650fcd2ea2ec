----------------------------- MODULE MC_Reject -----------------------------
(***************************************************************************)
(* Several lanes sample in parallel.  In every round each lane that has    *)
(* not kept a proposal proposes once more, and keeps or drops it; beside   *)
(* the lanes runs the exact distribution of what has been kept so far.     *)
(***************************************************************************)
EXTENDS Reject, FiniteSets, Json
CONSTANTS Lanes, Rounds, Problems
VARIABLES prob, round, lane, kept, pending, hist

Cat == << [w |-> <<One, One, One>>, f |-> <<One, Two, Half>>, a |-> One, b |-> Zero, m |-> Two],
          [w |-> <<One, I(3)>>, f |-> <<Two, Zero>>, a |-> Half, b |-> One, m |-> I(3)],
          [w |-> <<Two, One, One, I(4)>>, f |-> <<Half, One, Zero, Q(1, 4)>>, a |-> Zero, b |-> Two, m |-> I(8)] >>
S == Cat[prob]
Cs == 1..Len(S.w)
None == 0

ASSUME KeepExact == \A N \in 1..12 : \A j \in 0..N : Cardinality({k \in 0..(N - 1) : Keeps(k, N, Q(j, N))}) = j

Init == /\ prob \in Problems /\ round = 0 /\ lane = [i \in Lanes |-> None]
        /\ kept = [c \in 1..Len(Cat[prob].w) |-> Zero] /\ pending = One /\ hist = [i \in Lanes |-> <<>>]
(* one round: every open lane draws a category and a verdict *)
Next == /\ round < Rounds /\ round' = round + 1 /\ UNCHANGED prob
        /\ \E draw \in [Lanes -> Cs], keep \in SUBSET Lanes :
             /\ \A i \in keep : ~IsZero(S.f[draw[i]])
             /\ \A i \in Lanes : lane[i] # None => i \notin keep /\ draw[i] = 1
             /\ lane' = [i \in Lanes |-> IF lane[i] = None /\ i \in keep THEN draw[i] ELSE lane[i]]
             /\ hist' = [i \in Lanes |-> IF lane[i] = None THEN Append(hist[i], <<draw[i], i \in keep>>) ELSE hist[i]]
        /\ kept' = [c \in Cs |-> Add(kept[c], Mul(pending, Div(CellMass(S, c, Zero, One), S.m)))]
        /\ pending' = Mul(pending, Sub(One, KeepRate(S)))
Spec == Init /\ [][Next]_<<prob, round, lane, kept, pending, hist>>

(* a lane's sample is the first proposal it kept *)
FirstKept == \A i \in Lanes : lane[i] # None =>
   /\ hist[i][Len(hist[i])] = <<lane[i], TRUE>>
   /\ \A j \in 1..(Len(hist[i]) - 1) : ~hist[i][j][2]
OpenLanesTried == \A i \in Lanes : lane[i] = None => Len(hist[i]) = round /\ \A j \in 1..round : ~hist[i][j][2]
NeverZeroDensity == \A i \in Lanes : lane[i] # None => Pos(S.f[lane[i]])
MassConserved == Add(SumSeq(kept), pending) = One
(* after any number of rounds the kept mass is distributed as specified *)
Proportional == round > 0 => \A c \in Cs : Div(kept[c], SumSeq(kept)) = CellProb(S, c, 1, 1)
BinsRefine == \A c \in Cs : SumSeq([k \in 1..4 |-> CellProb(S, c, k, 4)]) = CellProb(S, c, 1, 1)
KeepsSome == Pos(KeepRate(S)) /\ Le(KeepRate(S), One)
IntOf(x) == <<x[1] * (IF x[2] = <<>> THEN 0 ELSE x[2][1]), x[3][1]>>
EmitOK == round = 0 => PrintT("SCN " \o ToJson([w |-> [c \in Cs |-> IntOf(S.w[c])], f |-> [c \in Cs |-> IntOf(S.f[c])], a |-> IntOf(S.a), b |-> IntOf(S.b), m |-> IntOf(S.m)]))
=============================================================================
