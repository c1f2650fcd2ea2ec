------------------------------- MODULE MC_Net -------------------------------
(***************************************************************************)
(* Networks grown width by width; parameters are fixed small rationals.    *)
(***************************************************************************)
EXTENDS Net, Json
CONSTANTS MaxLen, Widths, Acts
VARIABLES widths, act, layers

W(i, j, k) == Q(((3 * i + 5 * j + 7 * k) % 9) - 4, 4)
Mk(nin, nout, k) == [K |-> [i \in 1..nin |-> [j \in 1..nout |-> W(i, j, k)]], b |-> [j \in 1..nout |-> W(j, 2, k + 1)]]
Init == widths \in {<<w>> : w \in Widths} /\ act \in Acts /\ layers = <<>>
Next == /\ Len(widths) < MaxLen
        /\ \E w \in Widths : /\ widths' = Append(widths, w)
                             /\ layers' = Append(layers, Mk(widths[Len(widths)], w, Len(widths)))
        /\ UNCHANGED act
Spec == Init /\ [][Next]_<<widths, act, layers>>

X == [i \in 1..widths[1] |-> Q(2 * i - 3, 3)]
Y == [i \in 1..widths[1] |-> Q(5 - 3 * i, 4)]
Small(x) == Le(RAbs(x), TwoTo(-80))
LayerPerWidth == Len(layers) = Len(widths) - 1 /\ \A i \in 1..Len(layers) : Len(layers[i].K) = widths[i] /\ Len(layers[i].b) = widths[i+1]
OutWidth == layers # <<>> => Len(Net(layers, act, X)) = widths[Len(widths)]
(* with the identity the network is affine; one layer is affine always *)
IsAffine == (layers # <<>> /\ (act = "id" \/ Len(layers) = 1)) =>
   LET m == [i \in 1..Len(X) |-> Div(Add(X[i], Y[i]), Two)] a == Net(layers, act, X) b == Net(layers, act, Y) c == Net(layers, act, m) IN
   \A j \in 1..Len(c) : Small(Sub(Mul(Two, c[j]), Add(a[j], b[j])))
(* the last layer is not activated: scaling it scales the output *)
LastLinear == layers # <<>> =>
   LET n == Len(layers) L == layers[n]
       L2 == [K |-> [i \in 1..Len(L.K) |-> [j \in 1..Len(L.b) |-> Mul(I(3), L.K[i][j])]], b |-> [j \in 1..Len(L.b) |-> Mul(I(3), L.b[j])]]
       a == Net(layers, act, X) b == Net([layers EXCEPT ![n] = L2], act, X) IN
   \A j \in 1..Len(a) : Small(Sub(b[j], Mul(I(3), a[j])))
EmitOK == layers # <<>> => PrintT("SCN " \o ToJson([widths |-> widths, act |-> act]))
=============================================================================
