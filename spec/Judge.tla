------------------------------- MODULE Judge -------------------------------
(* Trace specification skeleton for components whose calls are pure: each   *)
(* event stands for itself.  JudgeEvent(e) is the set of broken clauses.    *)
EXTENDS TraceLib
CONSTANT JudgeEvent(_)
VARIABLE l

Init == l = 1
Step == /\ l <= Len(Trace)
        /\ Report(l, LET e == Trace[l] IN IF Raised(e) THEN {"raised " \o e.exc} ELSE JudgeEvent(e))
        /\ l' = l + 1
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
Next == Step \/ Finish
Spec == Init /\ [][Next]_l
=============================================================================
