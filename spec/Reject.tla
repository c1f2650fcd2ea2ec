------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Rejection sampling.  A proposal is a category c (probability w[c] over  *)
(* the sum of w) and an independent number u uniform on [0, 1]; its        *)
(* density is f[c] (a + b u) and is bounded by m.                          *)
(***************************************************************************)
EXTENDS Reals, TLC

(* mean of a + b u over [lo, hi] times the length *)
BinMass(a, b, lo, hi) == Mul(Sub(hi, lo), Add(a, Mul(b, Div(Add(lo, hi), Two))))
CellMass(S, c, lo, hi) == Mul(Mul(Div(S.w[c], SumSeq(S.w)), S.f[c]), BinMass(S.a, S.b, lo, hi))
(* probability that one proposal is kept *)
KeepRate(S) == Div(SumSeq([c \in 1..Len(S.w) |-> CellMass(S, c, Zero, One)]), S.m)
(* what a returned sample is distributed by: bin k of K of category c *)
CellProb(S, c, k, K) == Div(CellMass(S, c, Q(k - 1, K), Q(k, K)), SumSeq([d \in 1..Len(S.w) |-> CellMass(S, d, Zero, One)]))
(* A proposal of density d (relative to the bound) is kept if a number drawn  *)
(* from 0, 1/N, ..., (N-1)/N is below d: with probability exactly d whenever  *)
(* N d is a whole number, in particular never at density zero.                *)
Keeps(k, N, d) == ~Le(d, Q(k, N))
=============================================================================
