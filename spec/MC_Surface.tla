---------------------------- MODULE MC_Surface ----------------------------
(***************************************************************************)
(* Patches under growing partitions of their parameter rectangle.          *)
(***************************************************************************)
EXTENDS Surface, Json
CONSTANTS MaxCells, Patches, Rules
VARIABLES pat, rule, U, W, hu, hv      \* partitions in u and v

T(n, d, e) == [c |-> Q(n, d), e |-> e]
Cat == << [t |-> "poly", r |-> << << T(1,1,<<1,0>>), T(-1,2,<<0,0>>) >>, << T(2,1,<<0,1>>) >>, << T(1,1,<<1,0>>), T(-1,1,<<0,1>>) >> >>],
          [t |-> "poly", r |-> << << T(1,1,<<1,0>>) >>, << T(1,1,<<0,1>>), T(1,2,<<1,0>>) >>, << T(1,1,<<2,0>>), T(1,2,<<1,1>>) >> >>],
          [t |-> "cyl", a |-> Q(3,2), z |-> Q(-1,2), h |-> Two, f |-> Q(1,4), w |-> One] >>
Ru == CASE rule = "gauss2" -> [t |-> "gauss", n |-> 2] [] rule = "gauss3" -> [t |-> "gauss", n |-> 3]
       [] rule = "midpoint" -> [t |-> "midpoint"] [] rule = "simpson" -> [t |-> "simpson"] [] rule = "skew" -> [t |-> "skew"]
Incs == {Half, Q(3, 4)}
S == Cat[pat]

Init == pat \in Patches /\ rule \in Rules /\ U = <<Zero>> /\ W = <<Q(1, 4)>> /\ hu = <<>> /\ hv = <<>>
Next == /\ \E h \in Incs :
             \/ /\ Len(hu) < MaxCells /\ U' = Append(U, Add(U[Len(U)], h)) /\ hu' = Append(hu, h) /\ UNCHANGED <<W, hv>>
             \/ /\ Len(hv) < MaxCells /\ W' = Append(W, Add(W[Len(W)], h)) /\ hv' = Append(hv, h) /\ UNCHANGED <<U, hu>>
        /\ UNCHANGED <<pat, rule>>
Spec == Init /\ [][Next]_<<pat, rule, U, W, hu, hv>>

Cells == {<<i, j>> : i \in 1..Len(hu), j \in 1..Len(hv)}
Small(x) == Le(RAbs(x), TwoTo(-80))
P0 == << T(1,1,<<0,0,0>>), T(2,1,<<1,0,0>>), T(-1,1,<<0,1,1>>), T(1,2,<<0,0,2>>) >>
F(y) == PEval(P0, y)
Elem(i, j) == SurfInt(Points(S, Ru, <<U[i], U[i+1]>>, <<W[j], W[j+1]>>), F)
RECURSIVE Tot(_)
Tot(C) == IF C = {} THEN Zero ELSE LET c == CHOOSE q \in C : TRUE IN Add(Elem(c[1], c[2]), Tot(C \ {c}))
(* the elements sum to the whole *)
ElementsSum == Small(Sub(Tot(Cells), SurfInt(Points(S, Ru, U, W), F)))
One1(y) == One
Du == Sub(U[Len(U)], U[1])
Dv == Sub(W[Len(W)], W[1])
(* areas of the affine patch and of the cylinder patch *)
Areas == Cells # {} =>
   /\ pat = 1 => Small(Sub(SurfInt(Points(S, Ru, U, W), One1), Mul(Mul(Du, Dv), Norm3(Cross3(<<One, Zero, One>>, <<Zero, Two, I(-1)>>)))))
   /\ pat = 3 => Small(Sub(SurfInt(Points(S, Ru, U, W), One1), Mul(Mul(Du, Dv), I(3))))
(* polynomial data on the affine patch are integrated exactly by rules of degree >= 3 *)
Pulled == PSum([k \in 1..Len(P0) |-> PScale(LET e == P0[k].e
              Pw[n \in 0..2, i \in 1..3] == IF n = 0 THEN << T(1,1,<<0,0>>) >> ELSE PMul(Cat[1].r[i], Pw[n - 1, i])
              IN PMul(Pw[e[1], 1], PMul(Pw[e[2], 2], Pw[e[3], 3])), P0[k].c)])
AffineExact == (pat = 1 /\ Degree(Ru) >= 3 /\ Cells # {}) =>
   Small(Sub(SurfInt(Points(S, Ru, U, W), F),
             Mul(Norm3(Cross3(<<One, Zero, One>>, <<Zero, Two, I(-1)>>)), PInt(Pulled, <<U[1], W[1]>>, <<U[Len(U)], W[Len(W)]>>))))
(* the potential decays like its monopole, its gradient points back         *)
Far == <<I(0), I(0), I(4000)>>
Monopole == (Len(hu) = 1 /\ Len(hv) = 1) => LET pts == Points(S, Ru, U, W) c == << T(1,1,<<0,0,0>>) >> a == SurfInt(pts, One1) IN
   /\ Le(RAbs(Sub(Mul(I(4000), Slp(pts, c, Far)), a)), Mul(a, Q(1, 1000)))
   /\ NegQ(SlpGrad(pts, c, Far, 3))
EmitOK == (Len(hu) >= 1 /\ Len(hv) >= 1) => PrintT("SCN " \o ToJson([pat |-> pat, rule |-> rule,
   hu |-> [k \in 1..Len(hu) |-> <<hu[k][2][1], hu[k][3][1]>>], hv |-> [k \in 1..Len(hv) |-> <<hv[k][2][1], hv[k][3][1]>>]]))
=============================================================================
