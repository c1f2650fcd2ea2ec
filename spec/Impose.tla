------------------------------- MODULE Impose -------------------------------
(***************************************************************************)
(* Models with imposed initial and boundary conditions.  At a fixed time   *)
(* everything is a polynomial in the remaining variables, so a stack of    *)
(* imposed conditions is a polynomial again:                               *)
(*  [w |-> "ic", c, m0]  decay factor c:  c m0 + (1 - c) below             *)
(*  [w |-> "dir", l, g]  l below + g                                       *)
(*  [w |-> "neu", l, h]  below - l (grad l . grad below) - l h             *)
(***************************************************************************)
EXTENDS Poly, Reals, TLC

Decay(k, t, t0) == Exp(Opp(Mul(k, Sub(t, t0))))
PGradDot(p, q, n) == PSum([i \in 1..n |-> PMul(PDiff(p, i), PDiff(q, i))])    \* over the first n variables
Wrap(W, p, n) ==
  CASE W.w = "ic" -> PAdd(PScale(W.m0, W.c), PScale(p, Sub(One, W.c)))
    [] W.w = "dir" -> PAdd(PMul(W.l, p), W.g)
    [] W.w = "neu" -> PSub(PSub(p, PMul(W.l, PGradDot(W.l, p, n))), PMul(W.l, W.h))
RECURSIVE Stack(_, _, _)
Stack(Ws, p, n) == IF Ws = <<>> THEN p ELSE Wrap(Ws[Len(Ws)], Stack(SubSeq(Ws, 1, Len(Ws) - 1), p, n), n)

(* Values only (no Neumann layer off its boundary): layers bottom to top,   *)
(* with all layer functions given as polynomials evaluated at v.            *)
RECURSIVE ValueAt(_, _, _)
ValueAt(Ws, p, v) ==
  IF Ws = <<>> THEN PEval(p, v)
  ELSE LET W == Ws[Len(Ws)] below == ValueAt(SubSeq(Ws, 1, Len(Ws) - 1), p, v) IN
       CASE W.w = "ic" -> Add(Mul(W.c, PEval(W.m0, v)), Mul(Sub(One, W.c), below))
         [] W.w = "dir" -> Add(Mul(PEval(W.l, v), below), PEval(W.g, v))
         [] W.w = "neu" -> below          \* on the boundary of l only
RECURSIVE MagAt(_, _, _)
MagAt(Ws, p, v) ==
  IF Ws = <<>> THEN PMag(p, v)
  ELSE LET W == Ws[Len(Ws)] below == MagAt(SubSeq(Ws, 1, Len(Ws) - 1), p, v) IN
       CASE W.w = "ic" -> Add(Mul(W.c, PMag(W.m0, v)), Mul(Add(One, W.c), below))
         [] W.w = "dir" -> Add(Mul(PMag(W.l, v), below), PMag(W.g, v))
         [] W.w = "neu" -> Mul(I(4), below)
=============================================================================
