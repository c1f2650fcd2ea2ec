--------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* The function a multi-layer perceptron denotes.  A layer is              *)
(* [K |-> rows (one per input), b |-> biases].                             *)
(***************************************************************************)
EXTENDS Reals, TLC

Act(a, x) == CASE a = "tanh" -> Tanh(x) [] a = "sin" -> Sin(x) [] a = "square" -> Sq(x) [] a = "id" -> x
              [] a = "relu" -> Max(Zero, x) [] a = "bent" -> Add(x, Sub(SqrtR(Add(Sq(x), One)), One))
Affine(L, x) == TLCEval([j \in 1..Len(L.b) |-> RR(Add(L.b[j], SumSeq([i \in 1..Len(x) |-> Mul(x[i], L.K[i][j])])))])
RECURSIVE NetFrom(_, _, _, _)
NetFrom(Ls, a, x, i) == LET z == Affine(Ls[i], x) IN
   IF i = Len(Ls) THEN z ELSE NetFrom(Ls, a, TLCEval([j \in 1..Len(z) |-> Act(a, z[j])]), i + 1)
Net(Ls, a, x) == NetFrom(Ls, a, x, 1)
(* Rounding allowance, carried forward with the values: <<value, error>> vectors, where u is the relative error of one    *)
(* operation.  An affine layer spreads the incoming errors by |K| and adds u times the magnitudes it sums; an activation     *)
(* multiplies them by its slope.                                                                                              *)
Slope(a, z, d) == CASE a = "square" -> Add(Mul(Two, RAbs(z)), d) [] a = "bent" -> Two [] OTHER -> One
RECURSIVE ErrFrom(_, _, _, _, _, _)
ErrFrom(Ls, a, x, d, u, i) ==
   LET L == Ls[i] z == Affine(L, x)
       dz == TLCEval([j \in 1..Len(L.b) |-> RR(Add(Mul(u, Add(RAbs(L.b[j]), SumSeq([k \in 1..Len(x) |-> RAbs(Mul(x[k], L.K[k][j]))]))),
                                                   SumSeq([k \in 1..Len(x) |-> Mul(d[k], RAbs(L.K[k][j]))])))])
       y == TLCEval([j \in 1..Len(z) |-> Act(a, z[j])]) IN
   IF i = Len(Ls) THEN <<z, dz>>
   ELSE ErrFrom(Ls, a, y, TLCEval([j \in 1..Len(z) |-> RR(Add(Mul(dz[j], Slope(a, z[j], dz[j])), Mul(u, Add(RAbs(y[j]), TwoTo(-10)))))]), u, i + 1)
(* The network's values at x with the error each may have. *)
NetErr(Ls, a, x, u) == ErrFrom(Ls, a, x, [j \in 1..Len(x) |-> Zero], u, 1)
=============================================================================
