----------------------------- MODULE MC_Shapes -----------------------------
(***************************************************************************)
(* Every sequence of transformations up to a length: the model pulls test  *)
(* points back through them and checks that rigid maps preserve distances, *)
(* that inverses undo, and that the planar rotation is the rotation about  *)
(* the third axis.  The sequences are the scenarios for the code.          *)
(***************************************************************************)
EXTENDS Shapes, TLC, Json
CONSTANTS MaxLen
VARIABLES dim, seq    \* dimension of the transformed body so far; transformations

A3 == <<One, Two, Opp(Two)>>
O2 == <<Half, I(-1)>>
O3 == <<Half, I(-1), Two>>
Options(d) ==
  {[t |-> "move", y |-> SubSeq(O3, 1, d)], [t |-> "scale", s |-> Q(3, 2)], [t |-> "scaleax", s |-> SubSeq(<<Two, Half, Q(3, 1)>>, 1, d)],
   [t |-> "refl", n |-> SubSeq(A3, 1, d), o |-> SubSeq(O3, 1, d)], [t |-> "proj", n |-> SubSeq(A3, 1, d), o |-> SubSeq(O3, 1, d)]}
  \cup (IF d = 2 THEN {[t |-> "rot2", a |-> Q(3, 4), o |-> O2]} ELSE
        {[t |-> "rot3", a |-> Q(-5, 4), ax |-> A3, o |-> O3], [t |-> "euler", a |-> <<Half, Q(1, 3), Q(-7, 4)>>, o |-> O3]})
Init == dim \in {2, 3} /\ seq = <<>>
Rev == dim = 2 /\ \E a \in {0, 1} : seq' = Append(seq, [t |-> "rev", axis |-> a]) /\ dim' = 3
Next == Len(seq) < MaxLen /\ (Rev \/ (UNCHANGED dim /\ \E T \in Options(dim) : seq' = Append(seq, T)))
Spec == Init /\ [][Next]_<<dim, seq>>

X == SubSeq(<<Q(7, 8), Q(-3, 5), Q(5, 3)>>, 1, dim)
Y == SubSeq(<<Q(1, 9), Two, Q(-1, 2)>>, 1, dim)
Dist2(x, y) == LET d == VSub(x, y) IN Dot(d, d)
Close(a, b) == Le(RAbs(Sub(a, b)), TwoTo(-60))
VClose(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i])
Rigid == \A i \in 1..Len(seq) : seq[i].t \in {"move", "scale", "rot2", "rot3", "euler", "refl"}
RigidPreserves == Rigid => LET px == Pull(seq, X) py == Pull(seq, Y) IN
                     Close(Dist2(X, Y), Mul(Sq(px[2]), Dist2(px[1], py[1])))
Inverse(T) == CASE T.t = "move" -> [T EXCEPT !.y = VScale(@, I(-1))] [] T.t = "scale" -> [T EXCEPT !.s = Inv(@)]
                [] T.t = "scaleax" -> [T EXCEPT !.s = [i \in 1..Len(@) |-> Inv(@[i])]]
                [] T.t \in {"rot2", "rot3"} -> [T EXCEPT !.a = Opp(@)] [] T.t = "refl" -> T [] OTHER -> T
HasInverse(T) == T.t \in {"move", "scale", "scaleax", "rot2", "rot3", "refl"}
Undo == seq # <<>> /\ HasInverse(seq[Len(seq)]) =>
   LET T == seq[Len(seq)] q == Pull(<<T, Inverse(T)>>, X) IN VClose(q[1], X) /\ q[2] = One
PlanarIsThirdAxis ==
   LET t == Q(11, 10)
       p == Pull(<<[t |-> "rot2", a |-> t, o |-> O2]>>, SubSeq(X, 1, 2))[1]
       q == Pull(<<[t |-> "rot3", a |-> t, ax |-> EZ, o |-> <<O2[1], O2[2], Zero>>]>>, <<X[1], X[2], Q(1, 3)>>)[1]
   IN  VClose(<<p[1], p[2], Q(1, 3)>>, q)
CounterClockwise == \* the image of (1, 0) under a quarter turn is (0, 1)
   VClose(Pull(<<[t |-> "rot2", a |-> Div(Pi, Two), o |-> <<Zero, Zero>>]>>, <<Zero, One>>)[1], <<One, Zero>>)
QuaternionAgrees == \* the quaternion rotation q^-1 x q pulls back
   LET q == QAxis(Q(3, 7), A3) x == O3 IN VClose(QRot(x, q), PreImage([t |-> "rot3", a |-> Q(3, 7), ax |-> A3, o |-> <<Zero, Zero, Zero>>], x))
   /\ LET e == <<Half, Q(1, 3), Q(-7, 4)>> IN VClose(QRot(x, QEuler(e)), PreImage([t |-> "euler", a |-> e, o |-> <<Zero, Zero, Zero>>], x))
ProjectionIdempotent == \A i \in 1..Len(seq) : seq[i].t = "proj" /\ Len(seq[i].n) = dim =>
   VClose(PreImage(seq[i], PreImage(seq[i], X)), PreImage(seq[i], X))
EmitOK == seq # <<>> => PrintT("SCN " \o ToJson([dim |-> dim, ts |-> [i \in 1..Len(seq) |-> IF seq[i].t = "rev" THEN IF seq[i].axis = 0 THEN "rev0" ELSE "rev1" ELSE seq[i].t]]))
=============================================================================
