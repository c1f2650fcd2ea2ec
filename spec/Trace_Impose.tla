----------------------------- MODULE Trace_Impose -----------------------------
(* Judges recorded evaluations of models with imposed conditions.              *)
EXTENDS Impose, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
Cmp(s, q) == IF Len(s) = 0 THEN <<>> ELSE Pl(s[q])          \* no data: zero
DecW(W, e, q) ==
  CASE W.w = "ic" -> [w |-> "ic", c |-> Decay(V(W.k), V(e.t), V(W.t0)), m0 |-> Cmp(W.m0, q)]
    [] W.w = "dir" -> [w |-> "dir", l |-> Pl(W.l), g |-> Cmp(W.g, q)]
    [] W.w = "neu" -> [w |-> "neu"]
JImpose(e) ==
  CASE e.k = "stack" ->
         LET v == Vs(e.v) IN
         Clause(e.shape, "shape of the model's value")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A q \in 1..Len(e.F) :
                 LET ws == TLCEval([i \in 1..Len(e.ws) |-> DecW(e.ws[i], e, q)]) p == Pl(e.F[q]) IN
                 Near(e.res[q], ValueAt(ws, p, v), Mul(Mul(I(64), Eps(e)), Add(One, MagAt(ws, p, v)))),
                 "value under " \o e.ws[Len(e.ws)].w))
    [] e.k = "exact" -> \* initial or boundary data reproduced whatever the free model
         Clause(AllNear(e.res, Vs(e.want), Mul(Mul(I(64), Eps(e)), Add(One, V(e.scale)))), "data reproduced: " \o e.what)
    [] e.k = "flux" ->
         LET v == Vs(e.v) n == Vs(e.n) IN
         Clause(\A q \in 1..Len(e.grad) : AllFin(e.grad[q]) /\
                 LET fl == SumSeq([i \in 1..Len(n) |-> Mul(n[i], V(e.grad[q][i]))])
                     h == PEval(Cmp(e.H, q), v) IN
                 Within(fl, h, Mul(Mul(I(256), Eps(e)), Add(One, Add(V(e.scale), RAbs(h))))), "prescribed outward normal derivative")
    [] OTHER -> {"unknown event"}
=============================================================================
