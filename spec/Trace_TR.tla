------------------------------ MODULE Trace_TR ------------------------------
(***************************************************************************)
(* Judges recorded histories of the trust-region optimizer, step by step   *)
(* from the observed state, and recorded subproblem solutions.  Scope      *)
(* selects the properties whose clauses are reported.                      *)
(***************************************************************************)
EXTENDS TrustRegion, TraceLib
CONSTANT Scope
VARIABLES l, env, cur, cnt

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
Pls(s) == [i \in 1..Len(s) |-> Pl(s[i])]
Cl(sc, ok, name) == IF sc \in Scope /\ ~ok THEN {name} ELSE {}

(* Relative error of a computed step and margin of its decisions.           *)
Rel(e) == IF e.loose = 1 THEN Q(2, 100) ELSE IF e.m = 64 THEN Ten(-6) ELSE Q(1, 100)
Mg(e) == IF e.loose = 1 THEN Q(3, 100) ELSE IF e.m = 64 THEN Ten(-7) ELSE Q(1, 200)

(*------------------------------ subproblem -------------------------------*)
SubBad(e, sub, g, H, delta, eps, max) ==
  IF ~(AllFin(sub.p) /\ Fin(sub.len)) THEN Cl("sub", FALSE, "step not finite")
  ELSE LET p == Vs(sub.p) np == Norm(p) ng == Norm(g)
           outs == Subproblem(g, H, delta, eps, max, Mg(e))
           like(o) == /\ sub.it = o.it
                      /\ sub.conv = (o.why # "limit")
                      /\ Le(Norm(VSub(p, o.p)), Mul(Rel(e), Add(Norm(o.p), TwoTo(-40))))
           same == {o \in outs : like(o)}
           curvOK(o) == o.it = 0 \/ Near(sub.curv, o.curv, Add(Mul(Mul(I(20), Rel(e)), RAbs(o.curv)), Mul(Mg(e), Mul(Dot(g, g), TwoTo(4)))))
           resid == Norm(VAdd(g, MatVec(H, p)))
           cs == CauchyStep(g, H, delta)
       IN Cl("sub", Le(np, Mul(delta, Add(One, Mul(Ten(-1), Rel(e))))), "step inside the trust region")
          \cup Cl("sub", same # {}, "step is the (cut) conjugate-gradient path, with its iteration count and convergence flag")
          \cup Cl("sub", Within(V(sub.len), np, Add(Mul(Ten(-1), Mul(Rel(e), np)), TwoTo(-60))), "reported step length")
          \cup Cl("sub", LET d == RAbs(Sub(V(sub.len), delta)) t == Add(Ten(-8), Mul(Ten(-5), delta)) IN
                         Within(d, t, Mul(Q(1, 20), t)) \/ sub.lim = Le(d, t) \/ (e.m = 32 /\ Le(d, Mul(Ten(-4), delta))), "boundary flag")
          \cup (IF same = {} THEN {} ELSE
                Cl("sub", \E o \in same : curvOK(o), "reported curvature")
                \cup Cl("sub", \E o \in same : o.why \in {"boundary", "curvature"}
                               \/ Near(sub.nr, resid, Add(Mul(Rel(e), Add(resid, ng)), TwoTo(-50))), "reported residual norm"))
          \cup (IF sub.it = 0 THEN {} ELSE
                Cl("sub", Le(Mul(Decrease(g, H, cs), Sub(One, Mul(I(10), Rel(e)))), Add(Decrease(g, H, p), TwoTo(-60))), "at least the decrease of steepest descent"))

(*-------------------------------- state ----------------------------------*)
TolV(e, p, x) == Mul(Mul(I(16), Eps(e)), Add(PMag(p, x), TwoTo(-60)))
(* Value, gradient, gradient norm and auxiliary output belong to y.         *)
StateBad(e, st, y, P, Qp, A, n) ==
  Cl("state", Near(st.value, PEval(P, y), TolV(e, P, y)), "value belongs to the parameters")
  \cup Cl("state", Len(st.grad) = n /\ \A i \in 1..n : Near(st.grad[i], PEval(PDiff(Qp, i), y), TolV(e, PDiff(Qp, i), y)), "gradient belongs to the parameters")
  \cup Cl("state", Len(st.aux) = Len(A) /\ \A i \in 1..Len(A) : Near(st.aux[i], PEval(A[i], y), TolV(e, A[i], y)), "auxiliary output belongs to the parameters")
  \cup (IF ~AllFin(st.grad) THEN {} ELSE
        Cl("state", LET q == Norm(Vs(st.grad)) IN Near(st.err, q, Add(Mul(Eps(e), q), TwoTo(-60))), "error is the gradient norm"))

InitBad(e) ==
  LET st == e.st IN
  StateBad(e, st, Vs(e.x), Pl(e.P), Pl(e.Q), Pls(e.A), env.n)
  \cup Cl("state", st.acc = FALSE, "nothing accepted yet")
  \cup Cl("radius", st.iter = (IF e.re THEN cur.iter ELSE 0), "iteration count at start")
  \cup Cl("radius", LET want == IF e.re THEN RestartRadius(env.cfg, V(cur.rad)) ELSE env.cfg.init IN
                    Near(st.rad, want, Mul(Eps(e), want)), "radius at start")

Same(a, b) == a.value = b.value /\ a.grad = b.grad /\ a.err = b.err /\ a.rho = b.rho /\ a.rad = b.rad /\ a.iter = b.iter
              /\ a.acc = b.acc /\ a.aux = b.aux /\ a.sub = b.sub

UpdateBad(e) ==
  LET st == e.st x == Vs(e.x) y == Vs(e.y) n == env.n cfg == env.cfg
      P == Pl(e.P) Qp == Pl(e.Q) A == Pls(e.A)
      delta == V(cur.rad)
  IN IF Frozen(cfg, delta)
     THEN Cl("radius", e.y = e.x /\ Same(st, cur), "nothing changes once the radius is at the minimum")
          \cup Cl("run", ~e.cb, "callback only for performed updates")
     ELSE IF ~(AllFin(e.y) /\ AllFin(st.sub.p) /\ Fin(st.value) /\ Fin(st.rad)) THEN {"state not finite"}
     ELSE
     LET g == GradAt(Qp, n, x)
         H0 == HessAt(Qp, n, x)
         H == IF env.damp THEN AddDiag(H0, env.mu) ELSE H0
         prev == IF Fin(cur.sub.eps) THEN V(cur.sub.eps) ELSE <<>>
         want == EpsNext(prev, Norm(g), env.half, env.tol)
         p == Vs(st.sub.p)
         dec == Decrease(g, H0, p)
         try == VAdd(x, p)
         noise == Mul(Mul(I(16), Eps(e)), Add(PMag(P, x), PMag(P, try)))
         rho == Ratio(PEval(P, x), PEval(P, try), dec)
         trho == IF e.exact THEN Zero ELSE Add(Div(Add(noise, TwoTo(-60)), RAbs(dec)), Mul(Add(One, RAbs(rho)), Mul(Ten(-1),
                   IF e.loose = 1 THEN Div(Mul(Rel(e), Add(RAbs(Dot(g, p)), RAbs(Dot(p, MatVec(H0, p))))), RAbs(dec)) ELSE Rel(e))))
         \* predicted reductions lost in rounding: the ratio says nothing
         blind == ~e.exact /\ Le(RAbs(dec), Mul(Eps(e), Add(Add(PMag(Qp, x), PMag(Qp, try)), TwoTo(-30))))
         ulp == IF e.m = 64 THEN TwoTo(-50) ELSE TwoTo(-21)
         still == IsZero(Dot(p, p))
         d == RAbs(Sub(V(st.sub.len), delta)) tb == Add(Ten(-8), Mul(Ten(-5), delta))
         atbs == IF Within(d, tb, Mul(Q(1, 20), tb)) \/ (e.m = 32 /\ Le(d, Mul(Ten(-4), delta)) /\ Le(Mul(Ten(-6), delta), d))
                 THEN {TRUE, FALSE} ELSE {Le(d, tb)}
     IN StateBad(e, st, y, P, Qp, A, n)
        \cup Cl("state", st.acc \/ e.y = e.x, "a rejected step leaves the parameters")
        \cup Cl("state", ~st.acc \/ (Len(y) = n /\ \A i \in 1..n : Within(y[i], try[i], Mul(ulp, Add(RAbs(x[i]), RAbs(p[i]))))), "an accepted step is the subproblem step")
        \cup Cl("state", Le(V(st.value), Add(PEval(P, x), noise)), "the objective does not increase")
        \cup Cl("state", st.iter = cur.iter + 1, "iteration count")
        \cup Cl("sub", Near(st.sub.eps, want, Add(Mul(Mul(I(10), Eps(e)), want), Mul(Eps(e), TwoTo(-10)))), "tolerance of the subproblem")
        \cup (IF Fin(st.sub.eps) THEN SubBad(e, st.sub, g, H, delta, V(st.sub.eps), env.cg) ELSE {})
        \cup (IF still
              THEN Cl("radius", ~st.acc /\ st.rad = cur.rad, "without a step nothing is accepted and the radius stays")
              ELSE IF ~Fin(st.rho) THEN Cl("radius", blind /\ ~st.acc, "ratio not finite")
              ELSE Cl("radius", blind \/ Within(V(st.rho), rho, trho), "ratio of actual to predicted reduction")
                   \cup Cl("radius", st.acc = Accepts(cfg, V(st.rho)), "accepted exactly if the ratio reaches the threshold")
                   \cup Cl("radius", \E b \in atbs : LET r == RadiusNext(cfg, delta, V(st.rho), b) IN Within(V(st.rad), r, Mul(Mul(Ten(-2), Eps(e)), r)), "next radius"))

(* A complete run: its updates were recorded by the callback.               *)
RunBad(e) ==
  LET K == cnt.k max == IF e.maxiter < 1 THEN 1 ELSE e.maxiter IN
  Cl("run", K = 0 \/ (e.y = cnt.y /\ e.st.value = cur.value /\ e.st.grad = cur.grad /\ e.st.rad = cur.rad /\ e.st.iter = cur.iter /\ e.st.acc = cur.acc), "the run returns the last update's result")
  \cup Cl("run", K <= max, "no more updates than the iteration limit")
  \cup Cl("run", ~cnt.late, "stops at the first state within tolerance")
  \cup Cl("run", K = max \/ Frozen(env.cfg, V(cur.rad)) \/ (K > 0 /\ Fin(cur.err) /\ Le(V(cur.err), env.tol)), "does not stop early")
  \cup Cl("run", e.counted = K \/ ~e.hascount, "callback invoked once per update")

PureBad(e) ==
  CASE e.k = "steih" ->
         SubBad(e, e.sub, Vs(e.g), Vss(e.H), V(e.delta), V(e.eps), e.cg)
         \cup Cl("sub", Near(e.sub.eps, V(e.eps), Zero), "reported tolerance")
    [] e.k = "steihend" -> \* badly conditioned: rounding decides the path, not why it ends
         IF ~(AllFin(e.sub.p) /\ Fin(e.sub.len) /\ Fin(e.sub.nr)) THEN Cl("sub", FALSE, "step not finite") ELSE
         LET p == Vs(e.sub.p) np == Norm(p) g == Vs(e.g) delta == V(e.delta) IN
         Cl("sub", Le(np, Mul(delta, Add(One, Mul(Ten(-1), Rel(e))))), "step inside the trust region")
         \cup Cl("sub", e.sub.it <= e.cg /\ (e.sub.conv \/ e.sub.it = e.cg), "ends before the iteration limit only if converged, at the boundary or on negative curvature")
         \cup Cl("sub", ~e.sub.conv \/ Le(V(e.sub.nr), V(e.eps)) \/ Le(Mul(delta, Q(99, 100)), np) \/ (Fin(e.sub.curv) /\ Le(V(e.sub.curv), Zero)), "converged only with a small residual, at the boundary or on negative curvature")
         \cup Cl("sub", LET H == Vss(e.H) IN Le(Mul(Decrease(g, H, CauchyStep(g, H, delta)), Q(99, 100)), Add(Decrease(g, H, p), TwoTo(-60))), "at least the decrease of steepest descent")
    [] e.k = "sens" -> \* derivatives of a run's parameters by the objective's coefficients
         LET x == Vs(e.x) Qp == Pl(e.Q) n == Len(e.x) H == HessAt(Qp, n, x) IN
         UNION {LET c == e.J[k] gm == GradAt(<<[c |-> One, e |-> c[1]]>>, n, x) IN
                IF ~AllFin(c[2]) THEN Cl("sens", FALSE, "derivative not finite")
                ELSE Cl("sens", Le(Norm(SensResidual(H, Vs(c[2]), gm)), Add(Mul(IF e.m = 64 THEN Q(2, 1000) ELSE Q(3, 100), Norm(gm)), TwoTo(-30))), "the optimum moves as the implicit function theorem says")
                : k \in 1..Len(e.J)}
         \cup Cl("sens", \A i \in 1..Len(e.Z) : AllFin(e.Z[i]) /\ \A j \in 1..Len(e.Z[i]) : IsZero(V(e.Z[i][j])), "no dependence on what does not move the optimum")
         \cup Cl("sens", LET y == Vs(e.y) IN Le(Norm(VSub(x, y)), Mul(I(50), V(e.tol))), "the run returns the same parameters when differentiated")
    [] e.k = "radius" -> \* update_tr_radius called directly
         LET cfg == [min |-> V(e.cfg.min), max |-> V(e.cfg.max), init |-> Zero, dec |-> V(e.cfg.dec), decf |-> V(e.cfg.decf), inc |-> V(e.cfg.inc), incf |-> V(e.cfg.incf), acc |-> Zero]
             r == RadiusNext(cfg, V(e.delta), V(e.rho), AtBoundary(V(e.len), V(e.delta))) IN
         Cl("radius", Near(e.res, r, Mul(Mul(Ten(-2), Eps(e)), r)), "next radius")
    [] e.k = "refuse" -> Cl("radius", e.refused = e.want, "configuration refused exactly if invalid: " \o e.what)
    [] OTHER -> {"unknown event " \o e.k}

Cfg(c) == [min |-> V(c.min), max |-> V(c.max), init |-> V(c.init), dec |-> V(c.dec), decf |-> V(c.decf), inc |-> V(c.inc), incf |-> V(c.incf), acc |-> V(c.acc)]
Env(e) == [n |-> e.n, cfg |-> Cfg(e.cfg), half |-> e.half, tol |-> V(e.tol), cg |-> e.cg, damp |-> e.damp, mu |-> V(e.mu)]

Init == l = 1 /\ env = <<>> /\ cur = <<>> /\ cnt = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF Raised(e) THEN Report(l, {"raised " \o e.exc}) /\ UNCHANGED <<env, cur, cnt>>
     ELSE CASE e.k = "begin" -> env' = Env(e) /\ cur' = <<>> /\ cnt' = <<>>
       [] e.k = "init" -> /\ Report(l, InitBad(e)) /\ cur' = e.st /\ UNCHANGED env
                          /\ cnt' = [k |-> 0, late |-> FALSE, y |-> e.x]
       [] e.k = "update" -> /\ Report(l, UpdateBad(e)) /\ UNCHANGED env /\ cur' = e.st
                            /\ cnt' = [k |-> cnt.k + 1, y |-> e.y,
                                       late |-> cnt.late \/ (cnt.k > 0 /\ Fin(cur.err) /\ Le(V(cur.err), env.tol))]
       [] e.k = "run" -> Report(l, RunBad(e)) /\ UNCHANGED <<env, cur, cnt>>
       [] OTHER -> Report(l, PureBad(e)) /\ UNCHANGED <<env, cur, cnt>>
Finish == l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED <<env, cur, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, env, cur, cnt>>
=============================================================================
