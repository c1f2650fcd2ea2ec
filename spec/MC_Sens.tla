------------------------------- MODULE MC_Sens -------------------------------
(***************************************************************************)
(* Minimizers of quadratic objectives whose coefficients are perturbed     *)
(* again and again: how a minimizer depends on the objective's arguments.  *)
(***************************************************************************)
EXTENDS TrustRegion, Json
CONSTANTS MaxLen, Emit
VARIABLES ob, acts, th

T(c, e) == [c |-> c, e |-> e]
Base == << << T(One, <<2, 0>>), T(Half, <<0, 2>>), T(I(-1), <<1, 0>>), T(One, <<0, 1>>) >>,
           << T(One, <<2, 0>>), T(One, <<1, 1>>), T(One, <<0, 2>>), T(Two, <<0, 1>>) >>,
           << T(Q(3, 2), <<2, 0>>), T(I(-1), <<1, 1>>), T(Half, <<0, 2>>), T(One, <<1, 0>>), T(I(-2), <<0, 1>>) >> >>
Monos == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>> >>
M(k) == << T(One, Monos[k]) >>
Steps == {Half, Q(-1, 2), Q(1, 4)}
Obj(b, t) == Base[b] \o [k \in 1..Len(Monos) |-> T(t[k], Monos[k])]
H(p) == HessAt(p, 2, ZeroV(2))
Det(h) == Sub(Mul(h[1][1], h[2][2]), Mul(h[1][2], h[2][1]))
PD(h) == Pos(h[1][1]) /\ Pos(Det(h))
Solve2(h, v) == TLCEval(<< Div(Sub(Mul(v[1], h[2][2]), Mul(h[1][2], v[2])), Det(h)), Div(Sub(Mul(h[1][1], v[2]), Mul(v[1], h[2][1])), Det(h)) >>)
Argmin(p) == Solve2(H(p), VOpp(GradAt(p, 2, ZeroV(2))))
X == Argmin(Obj(ob, th))
Sens(k) == Solve2(H(Obj(ob, th)), VOpp(GradAt(M(k), 2, X)))

Init == ob \in 1..Len(Base) /\ acts = <<>> /\ th = [k \in 1..Len(Monos) |-> Zero]
Next == /\ Len(acts) < MaxLen
        /\ \E k \in 1..Len(Monos) : \E s \in Steps :
             LET t == [th EXCEPT ![k] = Add(@, s)] IN
             /\ PD(H(Obj(ob, t)))
             /\ th' = t /\ acts' = Append(acts, <<k, s>>)
        /\ UNCHANGED ob
Spec == Init /\ [][Next]_<<ob, acts, th>>

Ks == 1..Len(Monos)
Stationary == GradAt(Obj(ob, th), 2, X) = ZeroV(2)
Solves == \A k \in Ks : SensResidual(H(Obj(ob, th)), Sens(k), GradAt(M(k), 2, X)) = ZeroV(2)
(* to first order the derivative leads to the next minimizer: what is left is of second order, exactly *)
FirstOrder == \A k \in Ks : \A s \in Steps :
   LET t == [th EXCEPT ![k] = Add(@, s)] IN
   GradAt(Obj(ob, t), 2, VAxpy(X, s, Sens(k))) = VScale(Sq(s), MatVec(H(M(k)), Sens(k)))
(* for perturbations that are linear in the parameters nothing is left *)
Linear == \A k \in {1, 2} : \A s \in Steps : Argmin(Obj(ob, [th EXCEPT ![k] = Add(@, s)])) = VAxpy(X, s, Sens(k))
(* the response is reciprocal, and a larger weight makes its term smaller *)
Reciprocal == \A j, k \in Ks : Dot(GradAt(M(j), 2, X), Sens(k)) = Dot(GradAt(M(k), 2, X), Sens(j))
Responds == \A k \in Ks : ~Pos(Dot(GradAt(M(k), 2, X), Sens(k)))
Rt(q) == <<Num(q), Den(q)>>
EmitOK == (Emit /\ Len(acts) = MaxLen) =>
   PrintT("SCN " \o ToJson([ob |-> [k \in 1..Len(Base[ob]) |-> <<Rt(Base[ob][k].c), Base[ob][k].e>>],
                            acts |-> [i \in 1..Len(acts) |-> <<Monos[acts[i][1]], Rt(acts[i][2])>>]]))
=============================================================================
