----------------------------- MODULE Trace_Reject -----------------------------
(* Judges recorded results of rejection sampling.                               *)
EXTENDS Reject, Judge

DecS(e) == [w |-> Vs(e.wt), f |-> Vs(e.f), a |-> V(e.a), b |-> V(e.b), m |-> V(e.bound)]
(* six standard deviations of a count *)
Slack(n, p) == Add(Two, Mul(I(6), SqrtR(Mul(n, Mul(p, Sub(One, p))))))
JReject(e) ==
  CASE e.k = "sample" ->
         Clause(e.shape, "the requested number of samples")
         \cup Clause(e.proposed, "samples were proposed by the proposal function")
         \cup Clause(e.distinct, "samples use different randomness")
         \cup Clause(e.same, "the result is a function of the key")
         \cup Clause(e.differ, "another key, another result")
         \cup LET S == DecS(e) n == I(e.n) K == Len(e.counts[1]) IN
              UNION { LET p == CellProb(S, c, k, K) got == I(e.counts[c][k]) IN
                      IF IsZero(p) THEN Clause(IsZero(got), "no sample where the density is zero")
                      ELSE Clause(Within(got, Mul(n, p), Slack(n, p)), "distributed by proposal times density")
                    : c \in 1..Len(S.w), k \in 1..K }
    [] e.k = "pairs" -> \* neighbouring samples of one call are independent: joint counts of categories
         LET S == DecS(e) n == I(e.n) IN
         Clause(\A c \in 1..Len(S.w), d \in 1..Len(S.w) :
                  LET p == Mul(CellProb(S, c, 1, 1), CellProb(S, d, 1, 1)) IN Within(I(e.joint[c][d]), Mul(n, p), Slack(n, p)), "samples are independent of each other")
    [] e.k = "excluded" -> \* each sample in turn is given zero density in the following draws with the same key
         Clause(\A i, j \in 1..Len(e.res) : i < j => V(e.res[i]) # V(e.res[j]), "no sample where the density is zero")
    [] OTHER -> {"unknown event"}
=============================================================================
