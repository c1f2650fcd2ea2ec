------------------------------ MODULE MC_Solid ------------------------------
(***************************************************************************)
(* A ball (and the disk in its equator) cut again and again into shells    *)
(* and sectors: the pieces always carry the moments of the whole.  Pieces  *)
(* of each state are scenarios for the sector integrals.                   *)
(***************************************************************************)
EXTENDS Quad, FiniteSets, Json
CONSTANTS MaxLen
VARIABLES pieces, cuts

(* angles are multiples of pi/6: <<cos, sin>> by index, polar angle 0..6, azimuth 0..12 *)
Ang(k) == CosSin(Div(Mul(Pi, I(k)), I(6)))
AngT == [k \in 0..12 |-> Ang(k)]
Wid(k) == Div(Mul(Pi, I(k)), I(6))
WidT == [k \in 0..12 |-> Wid(k)]
RadT == [k \in 0..4 |-> Q(k, 2)]
Mons == { <<0,0,0>>, <<1,0,0>>, <<0,1,1>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>, <<1,2,1>>, <<2,2,0>> }
Whole == [r1 |-> 0, r2 |-> 4, f1 |-> 0, f2 |-> 6, t1 |-> 0, t2 |-> 12]
B(e, p) == BallMono(e[1], e[2], e[3], RadT[p.r1], RadT[p.r2], AngT[p.f1], AngT[p.f2], WidT[p.f2 - p.f1], AngT[p.t1], AngT[p.t2], WidT[p.t2 - p.t1])
D(e, p) == DiskMono(e[1], e[2], RadT[p.r1], RadT[p.r2], AngT[p.t1], AngT[p.t2], WidT[p.t2 - p.t1])

Init == pieces = {Whole} /\ cuts = 0
Cut(p, lo, hi) == LET m == (p[lo] + p[hi]) \div 2 IN
   /\ m > p[lo] /\ m < p[hi]
   /\ pieces' = (pieces \ {p}) \cup {[p EXCEPT ![hi] = m], [p EXCEPT ![lo] = m]}
Next == /\ cuts < MaxLen /\ cuts' = cuts + 1
        /\ \E p \in pieces : Cut(p, "r1", "r2") \/ Cut(p, "f1", "f2") \/ Cut(p, "t1", "t2")
Spec == Init /\ [][Next]_<<pieces, cuts>>

RECURSIVE SumOver(_, _)
SumOver(S, e) == IF S = {} THEN Zero ELSE LET p == CHOOSE q \in S : TRUE IN Add(B(e, p), SumOver(S \ {p}, e))
Small(x) == Le(RAbs(x), TwoTo(-90))
(* double factorial form of the full ball's moments *)
FullBall(e) == IF e[1] % 2 = 1 \/ e[2] % 2 = 1 \/ e[3] % 2 = 1 THEN Zero
   ELSE LET n == e[1] + e[2] + e[3]
            DF[k \in -1..9] == IF k <= 0 THEN 1 ELSE k * DF[k - 2] IN
        Mul(Mul(I(4), Pi), Mul(Q(DF[e[1] - 1] * DF[e[2] - 1] * DF[e[3] - 1], DF[n + 1]), Moment(Zero, Two, n + 2)))
MomentsKept == \A e \in Mons : Small(Sub(SumOver(pieces, e), FullBall(e)))
VolumesPositive == \A p \in pieces : Pos(B(<<0,0,0>>, p)) /\ Pos(D(<<0,0,0>>, p))
(* the disk sector's area is half the angle times the difference of squares *)
SectorArea == \A p \in pieces : Small(Sub(D(<<0,0,0>>, p), Mul(Half, Mul(WidT[p.t2 - p.t1], Sub(Sq(RadT[p.r2]), Sq(RadT[p.r1]))))))
EmitOK == PrintT("SCN " \o ToJson([cuts |-> cuts, pieces |-> pieces]))
=============================================================================
