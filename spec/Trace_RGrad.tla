---------------------------- MODULE Trace_RGrad ----------------------------
(* Judges recorded set expressions with their gradients.  Stack entries are *)
(* sequences over points of [v |-> value, g |-> gradient, k |-> leaves it   *)
(* depends on], as observed; a leaf is judged by nothing here.              *)
EXTENDS RFun, TraceLib
VARIABLES l, sys, stack

DecSys(s) == CASE s.t = "alpha" -> [t |-> "alpha", a |-> V(s.a)] [] s.t = "alpham" -> [t |-> "alpham", m |-> s.mm, a |-> V(s.a)]
               [] s.t = "p" -> [t |-> "p", p |-> s.p] [] s.t = "rho" -> [t |-> "rho", rho |-> V(s.rho)]
Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
L1(g) == SumSeq([i \in 1..Len(g) |-> RAbs(g[i])])
(* observed entry; a gradient that is not finite is passed on as unknown *)
Entry(e) == [j \in 1..Len(e.res) |-> [v |-> V(e.res[j]), ok |-> AllFin(e.grad[j]), g |-> IF AllFin(e.grad[j]) THEN Vs(e.grad[j]) ELSE <<>>]]
OpBad(e) ==
  IF Raised(e) THEN {"raised " \o e.op \o " " \o e.exc}
  ELSE LET n == Len(Top(0)) IN
    IF ~(Len(e.res) = n /\ Len(e.grad) = n /\ Len(e.fwd) = n) THEN {"one gradient per point"}
    ELSE UNION {
      LET A == IF e.op = "neg" THEN Top(0)[j] ELSE Top(1)[j] B == Top(0)[j] IN
      IF ~(A.ok /\ B.ok) THEN {}
      ELSE IF e.op # "neg" /\ ~Reg2(sys, e.op, A.v, B.v) THEN {}
      ELSE IF ~(AllFin(e.grad[j]) /\ AllFin(e.fwd[j])) THEN {"derivatives are finite: " \o e.op}
      ELSE LET g == Vs(e.grad[j]) f == Vs(e.fwd[j]) d == Len(A.g)
               p == IF e.op = "neg" THEN <<I(-1), Zero>> ELSE TLCEval(Part2(sys, e.op, A.v, B.v))
               x == [i \in 1..d |-> Add(Mul(p[1], A.g[i]), Mul(p[2], B.g[i]))]
               t == Mul(Mul(I(64), Eps(e)), Mul(Add(Add(RAbs(p[1]), RAbs(p[2])), One), Add(L1(A.g), L1(B.g))))
           IN Clause(Len(g) = d /\ \A i \in 1..d : Within(g[i], x[i], t), "gradient of " \o e.op)
              \cup Clause(Len(f) = d /\ \A i \in 1..d : Within(f[i], x[i], t), "forward derivative of " \o e.op)
      : j \in 1..n }

(* A body composed of unit-normal bodies, at a point on the boundary of one *)
(* of them (number e.on) and off the others': gradient plus or minus its.   *)
FinalBad(e) ==
  IF ~Normalized(sys) THEN {}
  ELSE UNION { LET top == Top(0)[j] IN
    IF e.on[j] = 0 THEN {}
    ELSE IF ~top.ok THEN {"derivatives are finite on the boundary"}
    ELSE LET n == Vs(e.normals[j]) t == IF e.m = 64 THEN Ten(-6) ELSE Q(1, 100) IN
         IF ~Le(RAbs(top.v), Mul(t, Ten(-1))) THEN {}     \* an inner boundary
         ELSE Clause((\A i \in 1..Len(n) : Within(top.g[i], n[i], t)) \/ (\A i \in 1..Len(n) : Within(top.g[i], Opp(n[i]), t)), "unit normal on the boundary of the composed body")
    : j \in 1..Len(e.on) }

Init == l = 1 /\ sys = <<>> /\ stack = <<>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.k = "begin" -> stack' = <<>> /\ sys' = DecSys(e.sys)
             [] e.k = "leaf" -> stack' = Append(stack, TLCEval(Entry(e))) /\ UNCHANGED sys
             [] e.k = "op" -> /\ Report(l, OpBad(e)) /\ UNCHANGED sys
                              /\ LET rest == Pop(IF e.op = "neg" THEN 1 ELSE 2) IN
                                 stack' = IF Raised(e) \/ ~AllFin(e.res) \/ Len(e.grad) # Len(e.res) THEN Append(rest, Top(0)) ELSE Append(rest, TLCEval(Entry(e)))
             [] e.k = "final" -> Report(l, FinalBad(e)) /\ UNCHANGED <<sys, stack>>
             [] OTHER -> Report(l, {"unknown event"}) /\ UNCHANGED <<sys, stack>>
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED <<sys, stack>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, sys, stack>>
=============================================================================
