-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* Differential operators on polynomial functions of several arguments.    *)
(*                                                                         *)
(* An argument layout is a sequence of argument sizes; the variables of a  *)
(* function are the flattened arguments in order.  A derivative request is *)
(* a record: [t |-> "arg", i]  the argument at position or with name i,    *)
(*           [t |-> "comp", i, j]  component j of argument i,              *)
(*           [t |-> "dir", d]  a direction, one number per variable.       *)
(***************************************************************************)
EXTENDS Poly

RECURSIVE SumTo(_, _)
SumTo(sizes, i) == IF i = 0 THEN 0 ELSE sizes[i] + SumTo(sizes, i - 1)
NVars(sizes) == SumTo(sizes, Len(sizes))
ArgVars(sizes, i) == (SumTo(sizes, i - 1) + 1) .. SumTo(sizes, i)

Dir(sizes, req) ==
  CASE req.t = "arg" -> [v \in 1..NVars(sizes) |-> IF v \in ArgVars(sizes, req.i) THEN One ELSE Zero]
    [] req.t = "comp" -> [v \in 1..NVars(sizes) |-> IF v = SumTo(sizes, req.i - 1) + req.j THEN One ELSE Zero]
    [] req.t = "dir" -> req.d

RECURSIVE Partials(_, _, _)     \* apply every request in turn
Partials(p, sizes, reqs) == IF reqs = <<>> THEN p
                            ELSE Partials(PDir(p, Dir(sizes, Head(reqs))), sizes, Tail(reqs))

(* Laplacian, divergence and curl with respect to the variables lo..lo+n-1. *)
Lap(p, lo, n) == PSum([i \in 1..n |-> PDiff(PDiff(p, lo + i - 1), lo + i - 1)])
Divg(F, lo) == PSum([i \in 1..Len(F) |-> PDiff(F[i], lo + i - 1)])
Curl2(F, lo) == << PSub(PDiff(F[2], lo), PDiff(F[1], lo + 1)) >>
Curl3(F, lo) == << PSub(PDiff(F[3], lo + 1), PDiff(F[2], lo + 2)),
                   PSub(PDiff(F[1], lo + 2), PDiff(F[3], lo)),
                   PSub(PDiff(F[2], lo), PDiff(F[1], lo + 1)) >>
Grad(p, n) == [i \in 1..n |-> PDiff(p, i)]
(* Hessian times v, first index over the variables 1..n, second over all.   *)
HessVec(p, n, v) == [i \in 1..n |-> PDir(PDiff(p, i), v)]
=============================================================================
