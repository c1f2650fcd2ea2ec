----------------------------- MODULE Trace_RFun -----------------------------
(* Judges recorded set-expression programs: the stack of RFun's machine     *)
(* takes over the observed values.                                          *)
EXTENDS RFun, TraceLib
VARIABLES l, sys, stack

DecSys(s) == CASE s.t = "alpha" -> [t |-> "alpha", a |-> V(s.a)] [] s.t = "alpham" -> [t |-> "alpham", m |-> s.mm, a |-> V(s.a)]
               [] s.t = "p" -> [t |-> "p", p |-> s.p] [] s.t = "rho" -> [t |-> "rho", rho |-> V(s.rho)]
Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)

(* Values of an operation are recorded for a batch of points: stack entries *)
(* are sequences of numbers.                                                *)
OpBad(e) ==
  IF Raised(e) THEN {"raised " \o e.op \o " " \o e.exc}
  ELSE IF ~AllFin(e.res) THEN {"not finite " \o e.op}
  ELSE LET n == Len(Top(0)) IN
    Clause(Len(e.res) = n, "one value per point") \cup
    (IF Len(e.res) # n THEN {} ELSE UNION {
      LET got == V(e.res[j]) IN
      IF e.op = "neg" THEN Clause(got = Opp(Top(0)[j]), "value of negation")
      ELSE LET a == Top(1)[j] b == Top(0)[j]
               x == Val2(sys, e.op, a, b)
               t == Mul(Mul(I(4), Eps(e)), MagOp(sys, e.op, a, b))
           IN Clause(Within(got, x, t), "value of " \o e.op)
              \* sign of the set expression, where rounding cannot decide it
              \cup (IF sys.t = "rho" THEN {}
                    ELSE LET s == Sign2(e.op, a[1], b[1]) IN
                         Clause(got[1] = s \/ Le(RAbs(x), t), "sign of " \o e.op))
      : j \in 1..n })

Pure(e) ==
  CASE e.k = "bin" -> \* conjunction/disjunction of two numbers
         LET s == DecSys(e.sys) a == V(e.a) b == V(e.b) t == Mul(Mul(I(4), Eps(e)), Mag2(s, a, b)) IN
         Clause(Near(e.conj, Conj(s, a, b), t), "conjunction")
         \cup Clause(Near(e.disj, Disj(s, a, b), t), "disjunction")
         \cup (IF ~(Fin(e.conj) /\ Fin(e.swap) /\ Fin(e.dual)) THEN {"not finite"}
               ELSE Clause(Within(V(e.conj), V(e.swap), t), "symmetry")
                    \cup Clause(Within(V(e.conj), Opp(V(e.dual)), t), "duality"))
    [] e.k = "nary" -> \* compose: left fold over the leaves
         LET s == DecSys(e.sys) v == Vs(e.leaves)
             F[i \in 1..Len(v)] == IF i = 1 THEN v[1] ELSE IF e.op = "inter" THEN Conj(s, F[i-1], v[i]) ELSE Disj(s, F[i-1], v[i])
             sg == LET S == {v[i][1] : i \in 1..Len(v)} IN
                   IF e.op = "inter" THEN CHOOSE m \in S : \A q \in S : m <= q ELSE CHOOSE m \in S : \A q \in S : q <= m
             t == Mul(Mul(I(64), Eps(e)), SumSeq([i \in 1..Len(v) |-> RAbs(v[i])]))
         IN IF ~Fin(e.res) THEN {"not finite"}
            ELSE Clause(V(e.res)[1] = sg \/ Le(RAbs(F[Len(v)]), t), "sign of the composition")
    [] e.k = "refuse" -> Clause(e.refused, "invalid system refused: " \o e.what)
    [] OTHER -> {"unknown event " \o e.k}

Init == l = 1 /\ sys = <<>> /\ stack = <<>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.k = "begin" -> stack' = <<>> /\ sys' = DecSys(e.sys)
             [] e.k = "leaf" -> stack' = Append(stack, Vs(e.res)) /\ UNCHANGED sys
             [] e.k = "op" -> /\ Report(l, OpBad(e)) /\ UNCHANGED sys
                              /\ LET rest == Pop(IF e.op = "neg" THEN 1 ELSE 2) IN
                                 stack' = IF Raised(e) \/ ~AllFin(e.res) THEN Append(rest, Top(0)) ELSE Append(rest, Vs(e.res))
             [] OTHER -> Report(l, IF Raised(e) THEN {"raised " \o e.exc} ELSE Pure(e)) /\ UNCHANGED <<sys, stack>>
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED <<sys, stack>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, sys, stack>>
=============================================================================
