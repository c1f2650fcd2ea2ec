----------------------------- MODULE Trace_Calc -----------------------------
(* Judges recorded calls of the differential operators.                     *)
EXTENDS Calc, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
Pls(s) == [i \in 1..Len(s) |-> Pl(s[i])]
(* Recorded numbers agree with polynomials evaluated at x; the allowance is *)
(* relative to the terms of the polynomial.                                 *)
Agree(e, f, p, x) == Near(f, PEval(p, x), Mul(Mul(I(16), Eps(e)), Add(PMag(p, x), TwoTo(-60))))
AgreeAll(e, s, ps, x) == Len(s) = Len(ps) /\ \A i \in 1..Len(s) : Agree(e, s[i], ps[i], x)

Req(r, sizes, dirs, k) == CASE r[1] = "arg" -> [t |-> "arg", i |-> r[2]]
                      [] r[1] = "comp" -> [t |-> "comp", i |-> r[2], j |-> r[3]]
                      [] r[1] = "dir" -> [t |-> "dir", d |-> Vs(dirs[k])]
Reqs(e) == [k \in 1..Len(e.reqs) |-> Req(e.reqs[k], e.sizes, e.dirs, k)]

JCalc(e) ==
  LET ps == Pls(e.f) x == Vs(e.x) IN
  Clause(e.shape, "output structure") \cup
  CASE e.k = "deriv" ->
         Clause(AgreeAll(e, e.res, [i \in 1..Len(ps) |-> Partials(ps[i], e.sizes, Reqs(e))], x), "partial derivative")
    [] e.k = "vderiv" ->
         Clause(AgreeAll(e, e.val, ps, x), "value")
         \cup Clause(AgreeAll(e, e.res, [i \in 1..Len(ps) |-> Partials(ps[i], e.sizes, Reqs(e))], x), "partial derivative")
    [] e.k = "elem" -> \* elementwise function of batched arguments: derivative per element
         Clause(Len(e.res) = Len(e.xs) /\ \A b \in 1..Len(e.xs) :
                  Agree(e, e.res[b], Partials(ps[1], e.sizes, Reqs(e)), Vs(e.xs[b])), "elementwise partial derivative")
    [] e.k = "lap" ->
         Clause(AgreeAll(e, e.res, [i \in 1..Len(ps) |-> Lap(ps[i], e.lo, e.n)], x), "Laplacian")
    [] e.k = "hdiag" -> \* second partials, first index over the variables
         Clause(AgreeAll(e, e.res, [j \in 1..(e.n * Len(ps)) |->
                   LET v == ((j - 1) \div Len(ps)) + 1 IN PDiff(PDiff(ps[((j - 1) % Len(ps)) + 1], v), v)], x), "Hessian diagonal")
    [] e.k = "div" -> \* ps is a flat list of fields with n components each
         Clause(AgreeAll(e, e.res, [b \in 1..(Len(ps) \div e.n) |-> Divg(SubSeq(ps, (b - 1) * e.n + 1, b * e.n), e.lo)], x), "divergence")
         \cup (IF e.hasval THEN Clause(AgreeAll(e, e.val, ps, x), "value next to the divergence") ELSE {})
    [] e.k = "curl" ->
         LET m == IF e.n = 3 THEN 3 ELSE 1
             C(b) == LET F == SubSeq(ps, (b - 1) * e.n + 1, b * e.n) IN IF e.n = 3 THEN Curl3(F, 1) ELSE Curl2(F, 1)
         IN Clause(Len(e.res) = m * (Len(ps) \div e.n) /\ \A b \in 1..(Len(ps) \div e.n) :
                     \A i \in 1..m : Agree(e, e.res[(b - 1) * m + i], C(b)[i], x), "curl")
    [] e.k = "hvp" -> \* n differentiated variables, v over all variables, alpha * v added
         LET v == Vs(e.v) a == V(e.alpha) IN
         Clause(Len(e.res) = Len(ps) * e.n /\ \A o \in 1..Len(ps) : \A i \in 1..e.n :
            LET p == HessVec(ps[o], e.n, v)[i] s == Mul(a, v[i]) IN
            Near(e.res[(o - 1) * e.n + i], Add(PEval(p, x), s),
                 Mul(Mul(I(16), Eps(e)), Add(Add(PMag(p, x), RAbs(s)), TwoTo(-60)))), "Hessian-vector product")
         \cup (IF e.hasval
               THEN Clause(AgreeAll(e, e.val, ps, x), "value")
                    \cup Clause(AgreeAll(e, e.grad, Grad(ps[1], e.n), x), "gradient")
               ELSE {})
         \cup (IF e.hasaux THEN Clause(AgreeAll(e, e.aux, Pls(e.auxf), x), "auxiliary output") ELSE {})
    [] e.k = "jac" -> \* res[o][v] for the variables of each differentiated argument in turn
         Clause(AgreeAll(e, e.val, ps, x), "value")
         \cup Clause(Len(e.res) = Len(e.vars) /\ \A a \in 1..Len(e.vars) :
                Len(e.res[a]) = Len(ps) * Len(e.vars[a]) /\ \A o \in 1..Len(ps) : \A i \in 1..Len(e.vars[a]) :
                   Agree(e, e.res[a][(o - 1) * Len(e.vars[a]) + i], PDiff(ps[o], e.vars[a][i]), x), "Jacobian")
         \cup (IF e.hasaux THEN Clause(AgreeAll(e, e.aux, Pls(e.auxf), x), "auxiliary output") ELSE {})
    [] e.k = "funs" -> \* the three parts an objective is split into: value, gradient, value and gradient
         Clause(e.part = 1 \/ AgreeAll(e, e.val, ps, x), "value")
         \cup Clause(e.part = 0 \/ AgreeAll(e, e.grad, Grad(ps[1], e.n), x), "gradient")
         \cup (IF e.hasaux THEN Clause(AgreeAll(e, e.aux, Pls(e.auxf), x), "auxiliary output") ELSE {})
    [] OTHER -> {"unknown event"}
=============================================================================
