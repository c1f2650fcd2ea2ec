------------------------------ MODULE Batches ------------------------------
(***************************************************************************)
(* Mini-batches.  A selection is a sequence of batches, a batch a sequence *)
(* of row numbers 1..n.  A way of batching is                              *)
(*   [kind |-> "without", n, size]                                         *)
(*   [kind |-> "with", n, size, num, rep]  (rep: repeats inside a batch)   *)
(* An iterator is [sels, pos, draws, sofar, keys, epochs, rng]: the        *)
(* selections it has drawn, how many batches it has yielded, and the       *)
(* random keys it has used, with the keys one gets by splitting those.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Injective(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
NumBatches(c) == IF c.kind = "without" THEN c.n \div c.size ELSE c.num

RowsOK(c, sel) == \A b \in 1..Len(sel) : \A i \in 1..Len(sel[b]) : sel[b][i] \in 1..c.n
SizesOK(c, sel) == Len(sel) = NumBatches(c) /\ \A b \in 1..Len(sel) : Len(sel[b]) = c.size
RepeatsOK(c, sel) ==
  IF c.kind = "without" THEN Injective(Flat(sel))
  ELSE ~c.rep => \A b \in 1..Len(sel) : Injective(sel[b])
IsSelection(c, sel) == RowsOK(c, sel) /\ SizesOK(c, sel) /\ RepeatsOK(c, sel)

(* -- the iterator -- *)
Fresh(epochs, rng) == [sels |-> <<>>, sofar |-> 0, pos |-> 0, epochs |-> epochs, rng |-> rng, ykeys |-> <<>>, skeys |-> <<>>, kids |-> {}]
Drawn(it, sel, key, kids) == [it EXCEPT !.sels = Append(@, sel), !.skeys = Append(@, key), !.kids = @ \cup kids]
(* batches drawn but not yielded yet *)
Queue(it) == LET f == Flat(it.sels) IN SubSeq(f, it.pos + 1, Len(f))
Yielded(it, key, kids) == [it EXCEPT !.pos = @ + 1, !.ykeys = IF it.rng THEN Append(@, key) ELSE @, !.kids = IF it.rng THEN @ \cup kids ELSE @]
UsedKeys(it) == {it.ykeys[i] : i \in 1..Len(it.ykeys)} \cup {it.skeys[i] : i \in 1..Len(it.skeys)}
(* A key is new when nothing has been done with it, with a key split off it, or with a key it is split off from: whoever   *)
(* holds a key may split it, and none of the iterator's other random choices may depend on that.                           *)
NewKey(it, key, kids) == key \notin UsedKeys(it) /\ key \notin it.kids /\ kids \cap UsedKeys(it) = {}
Exhausted(it) == Len(it.sels) = it.epochs /\ Queue(it) = <<>>
=============================================================================
