------------------------------ MODULE Trace_Net ------------------------------
(* Judges recorded network evaluations.                                        *)
EXTENDS Net, Judge

DecL(L) == [K |-> Vss(L.K), b |-> Vs(L.b)]
JNet(e) ==
  CASE e.k = "layers" ->
         Clause(Len(e.shapes) = Len(e.widths) - 1, "one affine layer per width after the first")
         \cup (IF Len(e.shapes) # Len(e.widths) - 1 THEN {} ELSE
               Clause(\A i \in 1..Len(e.shapes) : e.shapes[i] = << <<e.widths[i], e.widths[i+1]>>, <<e.widths[i+1]>> >>, "layer shapes"))
         \cup Clause(e.same, "initialization is a function of the key")
         \cup Clause(e.differ, "different keys, different parameters")
    [] e.k = "eval" ->
         LET Ls == TLCEval([i \in 1..Len(e.Ls) |-> DecL(e.Ls[i])]) IN
         Clause(e.shape, "one value per sample, a scalar for output width one")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A q \in 1..Len(e.x) : LET v == TLCEval(NetErr(Ls, e.act, Vs(e.x[q]), Mul(I(16), Eps(e)))) IN
                        \A j \in 1..Len(v[1]) : Near(e.res[q][j], v[1][j], v[2][j]), "the layered function"))
    [] OTHER -> {"unknown event"}
=============================================================================
