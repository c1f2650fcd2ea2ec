----------------------------- MODULE Trace_Quat -----------------------------
(***************************************************************************)
(* Judges recorded quaternion programs and rotations.  Program events      *)
(* ("begin", "push", "op") drive the stack machine of Quat, whose stack    *)
(* takes over the observed values; the remaining events are pure calls.    *)
(***************************************************************************)
EXTENDS Quat, TraceLib
VARIABLES l, stack

Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
IsQ(s) == Len(s) = 4 /\ AllFin(s)
QNear(s, q, t) == IsQ(s) /\ \A i \in 1..4 : Within(V(s[i]), q[i], t)

(* Expected result and magnitude of one instruction on the observed stack.  *)
Expect(e) ==
  CASE e.op \in Binary -> LET p == Top(1) q == Top(0) IN
         << Apply2(e.op, p, q),
            IF e.op = "mul" THEN Mul(Mag(p), Mag(q))
            ELSE IF e.op \in NeedsInverse THEN Mul(Mag(p), Mag(QRecip(q)))
            ELSE Add(Mag(p), Mag(q)) >>
    [] e.op \in Unary -> LET p == Top(0) IN << Apply1(e.op, p), IF e.op = "recip" THEN Mag(QRecip(p)) ELSE Mag(p) >>
    [] OTHER -> LET p == Top(0) s == V(e.sc) IN
         << ApplyS(e.op, p, s),
            IF e.op \in {"muls", "rmuls"} THEN Mul(Mag(p), RAbs(s))
            ELSE IF e.op = "divs" THEN Div(Mag(p), RAbs(s)) ELSE Add(Mag(p), Mul(I(4), RAbs(s))) >>
Arity(op) == IF op \in Binary THEN 2 ELSE 1

OpBad(e) ==
  IF Raised(e) THEN {"raised " \o e.op \o " " \o e.exc}
  ELSE LET x == Expect(e) IN
       Clause(QNear(e.res, x[1], Mul(Mul(I(8), Eps(e)), x[2])), "value of " \o e.op)

Norm(s) == SqrtR(Dot3(s, s))
Rel(e, k) == Mul(Mul(I(k), Eps(e)), One)
Pure(e) ==
  CASE e.k = "abs" -> LET q == Vs(e.q) n == SqrtR(QNorm2(q)) IN
         Clause(Near(e.res, n, Mul(Mul(I(8), Eps(e)), Add(n, TwoTo(-400)))), "absolute value")
    [] e.k = "eq" -> Clause(e.res = (Vs(e.p) = Vs(e.q)), "equality")
    [] e.k = "eqother" -> Clause(e.res = FALSE, "equality with another type")
    [] e.k = "zero" -> Clause(QNear(e.res, QZero, Zero), "zero quaternion")
    [] e.k = "rot" -> LET x == Vs(e.x) IN
         Clause(AllNear(e.res, QRot(x, Vs(e.q)), Mul(Rel(e, 16), Norm(x))), "rotation")
    [] e.k = "refl" -> LET x == Vs(e.x) IN
         Clause(AllNear(e.res, Refl(x, Vs(e.n)), Mul(Rel(e, 16), Norm(x))), "reflection")
    [] e.k = "axis" -> Clause(QNear(e.res, QAxis(V(e.t), Vs(e.ax)), Rel(e, 32)), "axis-angle quaternion")
    [] e.k = "euler" -> Clause(QNear(e.res, QEuler(Vs(e.t)), Rel(e, 32)), "Euler-angle quaternion")
    [] e.k = "exp" -> LET q == Vs(e.q) x == QExp(q) IN
         Clause(QNear(e.res, x, Mul(Rel(e, 64), Exp(q[1]))), "exponential")
    [] e.k = "log" -> LET q == Vs(e.q) n == SqrtR(QNorm2(q)) IN
         LET t == Mul(Rel(e, 256), n) IN
         IF ~IsQ(e.res) THEN {"logarithm not finite"}
         ELSE LET w == Vs(e.res) IN
              Clause(LET x == QExp(w) IN \A i \in 1..4 : Within(x[i], q[i], t), "exp(log q) = q")
              \cup Clause(Le(Norm(QImag(w)), Add(Pi, Rel(e, 256))), "principal logarithm")
    [] e.k = "logexp" -> \* inside the principal branch; the imaginary part keeps its digits however small it is
         LET q == Vs(e.q) IN
         IF ~IsQ(e.res) THEN {"logarithm not finite"}
         ELSE LET w == Vs(e.res) s == Norm(QImag(q)) IN
              Clause(Within(w[1], q[1], Mul(Rel(e, 256), Add(One, RAbs(q[1])))), "log(exp q) = q")
              \cup Clause(\A i \in 2..4 : Within(w[i], q[i], Mul(Rel(e, 256), s)), "log(exp q) = q")
    [] e.k = "arg" -> LET q == Vs(e.q) n == SqrtR(QNorm2(q)) IN
         IF ~Fin(e.res) THEN {"argument not finite"}
         ELSE LET a == V(e.res) IN
              Clause(Within(Mul(n, Cos(a)), q[1], Mul(n, Rel(e, 64))), "cosine of the argument")
              \cup Clause(Within(Mul(n, Sin(a)), Norm(QImag(q)), Add(Mul(Norm(QImag(q)), Rel(e, 64)), Mul(IF NegQ(q[1]) THEN n ELSE Zero, Rel(e, 64)))), "sine of the argument")
              \cup Clause(~NegQ(a) /\ Le(a, Add(Pi, Rel(e, 64))), "range of the argument")
    [] e.k = "powi" -> LET q == Vs(e.q) x == QPowInt(q, e.n) IN
         Clause(QNear(e.res, x, Mul(Rel(e, 2048), Mag(x))), "integer power")
    [] e.k = "powsum" -> \* q^a, q^b, q^(a+b)
         IF ~(IsQ(e.ra) /\ IsQ(e.rb) /\ IsQ(e.rc)) THEN {"power not finite"}
         ELSE LET pa == Vs(e.ra) pb == Vs(e.rb) x == QMul(pa, pb) IN
              Clause(QNear(e.rc, x, Mul(Rel(e, 2048), Mul(Mag(pa), Mag(pb)))), "real powers add")
    [] e.k = "powroot" -> \* (q^(1/n)), to the n-th
         IF ~IsQ(e.ra) THEN {"root not finite"}
         ELSE LET pa == Vs(e.ra) q == Vs(e.q) IN
              Clause(LET x == QPowNat(pa, e.n) t == Mul(Rel(e, 2048), Mag(q)) IN \A i \in 1..4 : Within(x[i], q[i], t), "n-th root")
    [] e.k = "rpow" -> \* 2^q through exp(q * ln base): base = exp(c)
         LET q == Vs(e.q) c == V(e.c) x == QExp(QScale(q, c)) IN
         Clause(QNear(e.res, x, Mul(Mul(Rel(e, 64), Add(One, Mul(Mag(q), Add(One, RAbs(c))))), Exp(Mul(q[1], c)))), "base to a quaternion")
    [] OTHER -> {"unknown event " \o e.k}

Init == l = 1 /\ stack = <<>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.k = "begin" -> stack' = <<>>
             [] e.k = "push" -> stack' = Append(stack, Vs(e.res))
             [] e.k = "op" -> /\ Report(l, OpBad(e))
                              /\ stack' = IF Raised(e) \/ ~IsQ(e.res) THEN Append(Pop(Arity(e.op)), QOne)
                                          ELSE Append(Pop(Arity(e.op)), Vs(e.res))
             [] OTHER -> Report(l, IF Raised(e) THEN {"raised " \o e.exc} ELSE Pure(e)) /\ UNCHANGED stack
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED stack
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, stack>>
=============================================================================
