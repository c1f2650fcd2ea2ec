------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* What every trace specification shares: reading the recorded trace,      *)
(* decoding recorded numbers, and comparing them with exact ones.          *)
(*                                                                         *)
(* A trace specification judges every recorded event: it computes the set  *)
(* of clauses of the specification the event breaks, reports them, and     *)
(* goes on with the next event (after taking over the observed state), so  *)
(* its verdict is total.                                                   *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(e, f) == f \in DOMAIN e
Raised(e) == Has(e, "exc")

Fin(f) == f[4] = 0
V(f) == FromFloat(f)                        \* a recorded number
Vs(s) == [i \in 1..Len(s) |-> V(s[i])]      \* a sequence of recorded numbers
Vss(m) == [i \in 1..Len(m) |-> Vs(m[i])]
AllFin(s) == \A i \in 1..Len(s) : Fin(s[i])

(* Rounding allowance: relative to a scale the judging clause supplies.     *)
Eps(e) == IF e.m = 64 THEN Ten(-9) ELSE Ten(-4)

Within(a, b, t) == Le(RAbs(Sub(a, b)), t)
Near(f, x, t) == Fin(f) /\ Within(V(f), x, t)
AllNear(s, xs, t) == /\ Len(s) = Len(xs)
                     /\ \A i \in 1..Len(s) : Near(s[i], xs[i], t)

Clause(ok, name) == IF ok THEN {} ELSE {name}
(* The first failing clause of a sequence of <<ok, name>>, evaluated in     *)
(* order so later ones may presuppose earlier ones, is written as nested    *)
(*   Guard(ok1, "n1", LAMBDA/expr)                                          *)
Guard(ok, name, rest) == IF ok THEN rest ELSE {name}

Report(l, bad) == IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(bad))
Done(n) == PrintT("DONE " \o ToString(n))
=============================================================================
