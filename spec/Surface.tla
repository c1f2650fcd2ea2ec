------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* Integrals over parametrized surfaces and single-layer potentials.       *)
(* A patch is [t |-> "poly", r |-> three polynomials in u, v] or           *)
(* [t |-> "cyl", a, z, h, f, w]: radius a, height z + h v, angle f + w u.  *)
(***************************************************************************)
EXTENDS Quad

Cross3(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])), Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
Dot3(a, b) == Add(Mul(a[1], b[1]), Add(Mul(a[2], b[2]), Mul(a[3], b[3])))
Norm3(a) == SqrtR(Dot3(a, a))
Minus3(a, b) == TLCEval([i \in 1..3 |-> Sub(a[i], b[i])])
Scale3(s, a) == TLCEval([i \in 1..3 |-> Mul(s, a[i])])
RR3(a) == TLCEval([i \in 1..3 |-> RR(a[i])])

At(S, u, v) == IF S.t = "poly" THEN TLCEval([i \in 1..3 |-> PEval(S.r[i], <<u, v>>)])
               ELSE LET c == CosSin(Add(S.f, Mul(S.w, u))) IN << Mul(S.a, c[1]), Mul(S.a, c[2]), Add(S.z, Mul(S.h, v)) >>
Tang(S, u, v) == IF S.t = "poly" THEN << TLCEval([i \in 1..3 |-> PEval(PDiff(S.r[i], 1), <<u, v>>)]),
                                         TLCEval([i \in 1..3 |-> PEval(PDiff(S.r[i], 2), <<u, v>>)]) >>
                 ELSE LET c == CosSin(Add(S.f, Mul(S.w, u))) aw == Mul(S.a, S.w) IN
                      << << Opp(Mul(aw, c[2])), Mul(aw, c[1]), Zero >>, << Zero, Zero, S.h >> >>
Area(S, u, v) == LET t == Tang(S, u, v) IN Norm3(Cross3(t[1], t[2]))

(* Quadrature points of the patch: <<weight times area element, point>>     *)
Points(S, r, U, Vp) ==
  LET ru == Rule(r, U) rv == Rule(r, Vp) IN
  TLCEval(Flat([i \in 1..Len(ru) |-> [j \in 1..Len(rv) |->
     << RR(Mul(Mul(ru[i][1], rv[j][1]), Area(S, ru[i][2], rv[j][2]))), RR3(At(S, ru[i][2], rv[j][2])) >>]]))
Mid(S, U, Vp, i, j) == At(S, Div(Add(U[i], U[i+1]), Two), Div(Add(Vp[j], Vp[j+1]), Two))

SurfInt(pts, G(_)) == SumSeq([i \in 1..Len(pts) |-> Mul(pts[i][1], G(pts[i][2]))])

(* Single-layer potential of the charge p at x, and its gradient.           *)
Slp(pts, p, x) == SurfInt(pts, LAMBDA y : RR(Div(PEval(p, y), Norm3(Minus3(x, y)))))
SlpGrad(pts, p, x, k) == SurfInt(pts, LAMBDA y : LET d == Minus3(y, x) n == Norm3(d) IN
                                 RR(Div(Mul(PEval(p, y), d[k]), Mul(n, Dot3(d, d)))))
FourPi == Mul(I(4), Pi)

(* Outward unit normal of {w > 0} at x, from the polynomial w               *)
OutN(w, x) == LET g == [i \in 1..3 |-> Opp(PEval(PDiff(w, i), x))] IN LET n == Norm3(g) IN TLCEval([i \in 1..3 |-> Div(g[i], n)])
Evals(ps, x) == TLCEval([i \in 1..Len(ps) |-> PEval(ps[i], x)])
NormalDer(p, n, x) == LET d == [i \in 1..3 |-> Mul(n[i], PEval(PDiff(p, i), x))] IN Add(d[1], Add(d[2], d[3]))
ScalarChargeN(w, m, g, x) == Add(Dot3(Evals(m, x), OutN(w, x)), PEval(g, x))
ScalarCharge(w, m, f, x) == LET n == OutN(w, x) IN Sub(Dot3(Evals(m, x), n), NormalDer(f, n, x))
VectorChargeN(w, m, g, x) == LET c == Cross3(Evals(m, x), OutN(w, x)) IN [i \in 1..3 |-> Add(c[i], PEval(g[i], x))]
VectorCharge(w, m, f, x) == LET n == OutN(w, x) c == Cross3(Evals(m, x), n) IN [i \in 1..3 |-> Sub(c[i], NormalDer(f[i], n, x))]
=============================================================================
