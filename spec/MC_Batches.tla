---------------------------- MODULE MC_Batches ----------------------------
(***************************************************************************)
(* Two iterators run interleaved over every selection; keys are paths in   *)
(* the tree of splits.                                                     *)
(***************************************************************************)
EXTENDS Batches, Json
CONSTANTS MaxN, MaxEpochs, Iters
VARIABLES conf, its, key, bkey, log

Confs == [kind : {"without"}, n : 1..MaxN, size : 1..MaxN, num : {0}, rep : {FALSE}]
         \cup {c \in [kind : {"with"}, n : 1..MaxN, size : 1..2, num : 1..2, rep : BOOLEAN] : c.rep \/ c.size <= c.n}
Batch(c) == [1..c.size -> 1..c.n]
Selections(c) == {s \in [1..NumBatches(c) -> Batch(c)] : RepeatsOK(c, s)}

Kids(k) == {Append(k, j) : j \in 1..3}
Init == /\ conf \in Confs
        /\ \E e \in 0..MaxEpochs, r \in BOOLEAN : its = [i \in Iters |-> Fresh(e, r)]
        /\ key = [i \in Iters |-> <<i>>] /\ bkey = [i \in Iters |-> <<>>] /\ log = [i \in Iters |-> <<>>]
Draw(i) == /\ Queue(its[i]) = <<>> /\ Len(its[i].sels) < its[i].epochs
           /\ \E s \in Selections(conf) : its' = [its EXCEPT ![i] = Drawn(@, s, Append(key[i], 2), Kids(Append(key[i], 2)))]
           /\ key' = [key EXCEPT ![i] = Append(@, 1)] /\ bkey' = [bkey EXCEPT ![i] = Append(key[i], 3)]
           /\ UNCHANGED <<conf, log>>
Yield(i) == /\ Queue(its[i]) # <<>>
            /\ its' = [its EXCEPT ![i] = Yielded(@, Append(bkey[i], 2), Kids(Append(bkey[i], 2)))]
            /\ bkey' = [bkey EXCEPT ![i] = Append(@, 1)]
            /\ log' = [log EXCEPT ![i] = Append(@, Queue(its[i])[1])]
            /\ UNCHANGED <<conf, key>>
Next == \E i \in Iters : Draw(i) \/ Yield(i)
Spec == Init /\ [][Next]_<<conf, its, key, bkey, log>>

Ok == \A i \in Iters : \A s \in 1..Len(its[i].sels) : IsSelection(conf, its[i].sels[s])
(* what has been yielded is a prefix of everything drawn, in order *)
InOrder == \A i \in Iters : log[i] = SubSeq(Flat(its[i].sels), 1, its[i].pos)
(* a partly consumed epoch never repeats a row when batching without replacement *)
NoRepeatInEpoch == conf.kind = "without" => \A i \in Iters :
   LET k == NumBatches(conf) done == IF k = 0 THEN 0 ELSE (its[i].pos \div k) * k IN Injective(Flat(SubSeq(log[i], done + 1, its[i].pos)))
(* at most size - 1 rows are left out of an epoch *)
LeavesOutFew == conf.kind = "without" => \A i \in Iters : \A s \in 1..Len(its[i].sels) :
   LET f == Flat(its[i].sels[s]) IN conf.n - Cardinality({f[j] : j \in 1..Len(f)}) = conf.n % conf.size
Total == \A i \in Iters : Exhausted(its[i]) => Len(log[i]) = its[i].epochs * NumBatches(conf)
Progress == \A i \in Iters : Exhausted(its[i]) \/ ENABLED Draw(i) \/ ENABLED Yield(i)
(* keys used by either iterator: never the same twice, and never one that is split further *)
Used == UNION {{<<i, k>> : k \in {its[i].ykeys[j] : j \in 1..Len(its[i].ykeys)} \cup {its[i].skeys[j] : j \in 1..Len(its[i].skeys)}} : i \in Iters}
CountUsed == \A i \in Iters : Cardinality({u \in Used : u[1] = i}) = Len(its[i].ykeys) + Len(its[i].skeys)
PrefixFree == \A u, v \in Used : u # v => ~(Len(u[2]) <= Len(v[2]) /\ SubSeq(v[2], 1, Len(u[2])) = u[2])
(* so every key the machine is about to use is new in the sense of the traces *)
NextNew == \A i \in Iters : /\ NewKey(its[i], Append(key[i], 2), Kids(Append(key[i], 2)))
                            /\ bkey[i] # <<>> => NewKey(its[i], Append(bkey[i], 2), Kids(Append(bkey[i], 2)))
EmitOK == (\A i \in Iters : its[i].sels = <<>>) => PrintT("SCN " \o ToJson([c |-> conf, epochs |-> its[1].epochs, rng |-> its[1].rng]))
=============================================================================
