------------------------------ MODULE MC_Impose ------------------------------
(***************************************************************************)
(* Every stack of imposed conditions up to a height over a free model, at  *)
(* the initial time or later; each stack is a scenario.                    *)
(***************************************************************************)
EXTENDS Impose, Json
CONSTANTS MaxLen, Layers
VARIABLES ws, names, poly, late     \* late: t > t0

T(n, d, e) == [c |-> Q(n, d), e |-> e]
Free == << T(2, 1, <<1, 0>>), T(-1, 2, <<0, 1>>), T(1, 1, <<0, 0>>), T(1, 4, <<1, 1>>) >>
Lp == << T(3, 5, <<1, 0>>), T(4, 5, <<0, 1>>), T(-1, 1, <<0, 0>>) >>            \* unit gradient
Gp == << T(1, 1, <<2, 0>>), T(-3, 1, <<0, 1>>) >>
Hp == << T(1, 2, <<0, 0>>), T(1, 1, <<1, 0>>) >>
M0 == << T(-1, 1, <<0, 2>>), T(1, 3, <<1, 0>>) >>
C == IF late THEN Round(Exp(Q(-3, 2)), 20) ELSE One
LayerOf(a) == CASE a = "ic" -> [w |-> "ic", c |-> C, m0 |-> M0] [] a = "dir" -> [w |-> "dir", l |-> Lp, g |-> Gp]
           [] a = "dir0" -> [w |-> "dir", l |-> Lp, g |-> <<>>] [] a = "neu" -> [w |-> "neu", l |-> Lp, h |-> Hp]
           [] a = "neu0" -> [w |-> "neu", l |-> Lp, h |-> <<>>]
Red(p) == SelectSeq([k \in 1..Len(p) |-> IF \E j \in 1..(k - 1) : p[j].e = p[k].e THEN [c |-> Zero, e |-> p[k].e] ELSE [c |-> CoefOf(p, p[k].e), e |-> p[k].e]],
                    LAMBDA t : ~IsZero(t.c))

Init == ws = <<>> /\ names = <<>> /\ poly = Free /\ late \in BOOLEAN
Next == /\ Len(names) < MaxLen
        /\ \E a \in Layers : /\ names' = Append(names, a) /\ ws' = Append(ws, LayerOf(a))
                             /\ poly' = Red(Wrap(LayerOf(a), poly, 2))
        /\ UNCHANGED late
Spec == Init /\ [][Next]_<<ws, names, poly, late>>

top == IF names = <<>> THEN "free" ELSE names[Len(names)]
below == Stack(SubSeq(ws, 1, Len(ws) - 1), Free, 2)
Bnd == { <<Q(5, 3), Zero>>, <<Zero, Q(5, 4)>>, <<One, Half>> }       \* on the line 3x + 4y = 5
Off == { <<Zero, Zero>>, <<One, One>>, <<Q(-1, 2), Two>> }
StackIsWrap == PEq(poly, Stack(ws, Free, 2))
InitialValue == (top = "ic" /\ ~late) => PEq(poly, M0)
BoundaryValue == (top \in {"dir", "dir0"}) => \A x \in Bnd : PEval(poly, x) = (IF top = "dir" THEN PEval(Gp, x) ELSE Zero)
NeumannKeeps == (top \in {"neu", "neu0"}) => \A x \in Bnd : PEval(poly, x) = PEval(below, x)
(* outward normal -grad l *)
NeumannFlux == (top \in {"neu", "neu0"}) => \A x \in Bnd :
   Opp(Add(Mul(Q(3, 5), PEval(PDiff(poly, 1), x)), Mul(Q(4, 5), PEval(PDiff(poly, 2), x)))) = (IF top = "neu" THEN PEval(Hp, x) ELSE Zero)
ValuesAgree == (~\E i \in 1..Len(names) : names[i] \in {"neu", "neu0"}) => \A x \in Bnd \cup Off : ValueAt(ws, Free, x) = PEval(poly, x)
EmitOK == Len(names) >= 1 => PrintT("SCN " \o ToJson([names |-> names, late |-> late]))
=============================================================================
