---------------------------- MODULE Trace_Batches ----------------------------
(* Judges recorded batches, and iterators against the machine of Batches.     *)
EXTENDS Batches, TraceLib, Reals
VARIABLES l, its

Conf(e) == [kind |-> e.kind, n |-> e.n, size |-> e.size, num |-> e.num, rep |-> e.rep]
Slack(n, p) == Add(Two, Mul(I(6), SqrtR(Mul(n, Mul(p, Sub(One, p))))))
(* every entry of a table of counts is a count of events of probability p *)
CountsOK(tab, n, P(_, _)) == \A i, j \in 1..Len(tab) :
   LET p == P(i, j) IN IF IsZero(p) THEN tab[i][j] = 0 ELSE Within(I(tab[i][j]), Mul(I(n), p), Slack(I(n), p))

SelBad(c, leaves) ==
  Clause(\A i \in 1..Len(leaves) : leaves[i] = leaves[1], "all leaves take the same rows") \cup
  Clause(\A i \in 1..Len(leaves) : RowsOK(c, leaves[i]), "every batch row is a row of the data") \cup
  Clause(\A i \in 1..Len(leaves) : SizesOK(c, leaves[i]), "number and size of the batches") \cup
  Clause(\A i \in 1..Len(leaves) : RepeatsOK(c, leaves[i]), "no repeats")

Pure(e) ==
  CASE e.k = "batches" ->
         SelBad(Conf(e), e.leaves)
         \cup Clause(e.struct, "the batches have the structure of the data")
         \cup Clause(e.same, "a deterministic function of the key")
         \cup Clause(e.differ, "another key selects other rows")
         \cup Clause(e.kind = "without" \/ e.batchesdiffer, "batches are drawn independently")
    [] e.k = "table" -> \* two positions of many selections: joint counts
         LET n == I(e.n)
             P(i, j) == IF e.repeat THEN Inv(Mul(n, n)) ELSE IF i = j THEN Zero ELSE Inv(Mul(n, I(e.n - 1)))
         IN Clause(CountsOK(e.tab, e.runs, P), "every sample is equally likely: " \o e.what)
    [] e.k = "refuse" -> Clause(e.refused, "leaves of different length are refused by " \o e.what)
    [] OTHER -> {"unknown event " \o e.k}

KeySet(s) == {s[i] : i \in 1..Len(s)}
IterBad(e) ==
  LET it == its[e.id] IN
  IF Raised(e) THEN {"raised " \o e.exc}
  ELSE CASE e.k = "draw" -> Clause(Len(it.sels) < it.epochs, "one selection per epoch")
                            \cup Clause(e.key \notin KeySet(it.skeys), "a fresh key for every epoch")
                            \cup Clause(NewKey(it, e.key, KeySet(e.kids)), "selecting depends on no key handed out before")
         [] e.k = "next" ->
              IF Queue(it) = <<>> THEN {"yields only drawn batches"}
              ELSE Clause(\A i \in 1..Len(e.leaves) : e.leaves[i] = Queue(it)[1], "the batches in order, rows aligned")
                   \cup Clause(e.struct, "a batch has the structure of the data")
                   \cup (IF it.rng THEN Clause(e.key \notin KeySet(it.ykeys), "a key is yielded once")
                                        \cup Clause(e.key \notin KeySet(it.skeys), "yielded keys are not used for selecting")
                                        \cup Clause(NewKey(it, e.key, KeySet(e.kids)), "yielded keys depend on no key used before")
                         ELSE {})
         [] e.k = "stop" -> Clause(Len(it.sels) = it.epochs, "every epoch") \cup Clause(Queue(it) = <<>>, "every batch of every epoch")
                            \* an earlier run with the same configuration and key
                            \cup (IF e.twin = 0 THEN {} ELSE
                                  Clause(its[e.twin].sels = it.sels /\ its[e.twin].ykeys = it.ykeys, "iterators with the same key agree"))
                            \cup (IF ~e.big THEN {} ELSE
                                  Clause(\A i, j \in 1..Len(it.sels) : i # j => it.sels[i] # it.sels[j], "epochs are different selections")
                                  \cup Clause(e.other = 0 \/ its[e.other].sels # it.sels, "another key, other selections"))
                            \cup (IF ~e.big \/ ~it.rng \/ e.other = 0 THEN {} ELSE
                                  Clause(KeySet(it.ykeys) \cap KeySet(its[e.other].ykeys) = {}, "another key, other keys"))

Init == l = 1 /\ its = <<>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.k = "begin" -> its' = <<>>
             [] e.k = "iter" -> its' = Append(its, Fresh(e.epochs, e.rng))
             [] e.k \in {"draw", "next", "stop"} ->
                  /\ Report(l, IterBad(e))
                  /\ its' = IF Raised(e) THEN its
                            ELSE IF e.k = "draw" THEN [its EXCEPT ![e.id] = Drawn(@, e.sel, e.key, KeySet(e.kids))]
                            ELSE IF e.k = "next" THEN [its EXCEPT ![e.id] = Yielded(@, e.key, KeySet(e.kids))]
                            ELSE its
             [] OTHER -> Report(l, IF Raised(e) THEN {"raised " \o e.exc} ELSE Pure(e)) /\ UNCHANGED its
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED its
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, its>>
=============================================================================
