---------------------------- MODULE Trace_Surface ----------------------------
(* Judges recorded surface integrals, potentials and surface charges.        *)
EXTENDS Surface, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
Pls(s) == TLCEval([i \in 1..Len(s) |-> Pl(s[i])])
DecR(r) == IF r.t = "gauss" THEN [t |-> "gauss", n |-> r.n] ELSE [t |-> r.t]
DecP(p) == IF p.t = "poly" THEN [t |-> "poly", r |-> Pls(p.r)]
           ELSE [t |-> "cyl", a |-> V(p.a), z |-> V(p.z), h |-> V(p.h), f |-> V(p.f), w |-> V(p.w)]
Mag(pts, p) == SumSeq([i \in 1..Len(pts) |-> Mul(RAbs(pts[i][1]), PMag(p, pts[i][2]))])
Tol(e, m) == Mul(Mul(I(64), Eps(e)), Add(Q(1, 100), m))

JSurf(e) ==
  CASE e.k = "surf" ->
         LET S == DecP(e.patch) ps == Pls(e.ps) pts == Points(S, DecR(e.rule), Vs(e.u), Vs(e.v)) IN
         Clause(e.shape, "tree and shape of the integral")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A q \in 1..Len(ps) : Near(e.res[q], SurfInt(pts, LAMBDA y : PEval(ps[q], y)), Tol(e, Mag(pts, ps[q]))), "function times area element"))
    [] e.k = "elems" -> \* polynomials in the point and the centre: e.res[i][j][q]
         LET S == DecP(e.patch) ps == Pls(e.ps) U == Vs(e.u) W == Vs(e.v) nu == Len(U) - 1 nv == Len(W) - 1 IN
         Clause(e.shape, "one value per parameter cell")
         \cup (IF ~e.shape THEN {} ELSE
               UNION { LET pts == Points(S, DecR(e.rule), <<U[i], U[i+1]>>, <<W[j], W[j+1]>>) c == Mid(S, U, W, i, j)
                           pc == TLCEval([k \in 1..Len(pts) |-> <<pts[k][1], pts[k][2] \o c>>]) IN
                       Clause(\A q \in 1..Len(ps) : Near(e.res[i][j][q], SurfInt(pc, LAMBDA y : PEval(ps[q], y)), Tol(e, Mag(pc, ps[q]))), "integral over the cell")
                     : i \in 1..nu, j \in 1..nv })
    [] e.k = "mids" ->
         LET S == DecP(e.patch) U == Vs(e.u) W == Vs(e.v) IN
         Clause(e.shape, "one centre per parameter cell")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A i \in 1..(Len(U) - 1), j \in 1..(Len(W) - 1) :
                         AllNear(e.res[i][j], Mid(S, U, W, i, j), Mul(Mul(I(64), Eps(e)), I(8))), "images of the cell midpoints"))
    [] e.k = "slp" ->
         LET S == DecP(e.patch) ps == Pls(e.ps) x == Vs(e.x) pts == Points(S, DecR(e.rule), Vs(e.u), Vs(e.v))
             dmin == V(e.dist)                 \* a lower bound of the distance, for the allowance
             m(q) == Div(Mag(pts, ps[q]), Mul(I(12), Min(One, Sq(dmin))))
             n == Len(ps)
             pot(q) == Div(Slp(pts, ps[q], x), FourPi)
             G == TLCEval([q \in 1..n |-> [k \in 1..3 |-> Div(SlpGrad(pts, ps[q], x, k), FourPi)]])
             t(q) == Mul(I(8), Tol(e, m(q)))
             tall == SumSeq([q \in 1..n |-> t(q)]) IN
         Clause(AllFin(e.val), "potential is finite")
         \cup (IF ~AllFin(e.val) THEN {} ELSE
               Clause(Len(e.val) = n /\ \A q \in 1..n : Near(e.val[q], pot(q), t(q)), "charge over distance over four pi")
               \cup (IF ~e.grad THEN {} ELSE
                     Clause(Len(e.g) = n /\ \A q \in 1..n : AllNear(e.g[q], G[q], t(q)), "gradient of the potential")
                     \cup (IF n # 3 THEN {} ELSE
                           Clause(AllNear(e.curl, <<Sub(G[3][2], G[2][3]), Sub(G[1][3], G[3][1]), Sub(G[2][1], G[1][2])>>, tall), "curl of the potential"))))
    [] e.k = "charge" -> \* f: what is passed as third argument
         LET w == Pl(e.adf) m == Pls(e.mag) f == Pls(e.f) x == Vs(e.x)
             g2 == LET g == [i \in 1..3 |-> PEval(PDiff(w, i), x)] IN Dot3(g, g)
             want == IF Len(f) = 1 THEN << IF e.normalized THEN ScalarChargeN(w, m, f[1], x) ELSE ScalarCharge(w, m, f[1], x) >>
                     ELSE IF e.normalized THEN VectorChargeN(w, m, f, x) ELSE VectorCharge(w, m, f, x)
             ma == SumSeq([i \in 1..3 |-> PMag(m[i], x)])
             mf == SumSeq([i \in 1..Len(f) |-> Mul(I(8), PMag(f[i], [k \in 1..3 |-> Max(One, RAbs(x[k]))]))])
             mw == Add(One, Div(PMag(w, [k \in 1..3 |-> Max(One, RAbs(x[k]))]), SqrtR(g2))) IN
         Clause(AllNear(e.res, want, Mul(Tol(e, Mul(I(4), Add(ma, mf))), mw)), IF Len(f) = 1 THEN "normal jump" ELSE "tangential jump")
    [] e.k = "agree" ->
         LET a == Vs(e.a) b == Vs(e.b) IN
         Clause(AllFin(e.a) /\ AllFin(e.b) /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : Within(a[i], b[i], Mul(Mul(I(256), Eps(e)), Add(One, Add(RAbs(a[i]), V(e.scale))))), "general and normalized forms agree on the boundary")
    [] OTHER -> {"unknown event"}
=============================================================================
