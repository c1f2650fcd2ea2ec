------------------------------ MODULE Trace_Quad ------------------------------
(* Judges recorded quadrature rules and integrals.                           *)
EXTENDS Quad, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
DecR(r) == IF r.t = "gauss" THEN [t |-> "gauss", n |-> r.n] ELSE [t |-> r.t]
AMax(v) == LET F[i \in 0..Len(v)] == IF i = 0 THEN One ELSE Max(RAbs(v[i]), F[i-1]) IN F[Len(v)]
RECURSIVE TotLen(_, _)
TotLen(d, i) == IF i >= Len(d) THEN Zero ELSE Add(RAbs(Sub(d[i+1], d[i])), TotLen(d, i + 1))
(* scale of what is summed when x^k is integrated over the partition *)
Mag1(d, k) == Mul(Max(TotLen(d, 1), Ten(-3)), Pow(AMax(d), k))
Moms(r, d, K) == TLCEval(LET ru == Rule(r, d) IN [k \in 1..(K + 1) |-> PowSum(ru, k - 1)])
Mags(d, K) == TLCEval([k \in 1..(K + 1) |-> Mag1(d, k - 1)])
MaxDeg(p) == LET F[k \in 0..Len(p)] == IF k = 0 THEN 0
                   ELSE LET G[i \in 0..Len(p[k].e)] == IF i = 0 THEN F[k-1] ELSE IF p[k].e[i] > G[i-1] THEN p[k].e[i] ELSE G[i-1] IN G[Len(p[k].e)]
             IN F[Len(p)]
AbsP(p) == [k \in 1..Len(p) |-> [c |-> RAbs(p[k].c), e |-> p[k].e]]
Inside(e, d, x) ==
  LET lo == LET F[i \in 1..Len(d)] == IF i = 1 THEN d[1] ELSE Min(F[i-1], d[i]) IN F[Len(d)]
      hi == LET F[i \in 1..Len(d)] == IF i = 1 THEN d[1] ELSE Max(F[i-1], d[i]) IN F[Len(d)]
      t == Mul(Eps(e), AMax(d)) IN Le(Sub(lo, t), x) /\ Le(x, Add(hi, t))

(* leaf q of the result belongs to polynomial e.ps[q]; extra factors: scale by e.arg, add e.kw times the measure is in the polynomial already *)
JQuad(e) ==
  CASE e.k = "rule" ->
         LET d == Vs(e.d) r == DecR(e.rule) K == IF Degree(r) > 5 THEN Degree(r) ELSE 5 IN
         IF ~(AllFin(e.wt) /\ AllFin(e.x) /\ Len(e.wt) = Len(e.x)) THEN {"weights and nodes are finite and match"} ELSE
         LET w == Vs(e.wt) x == Vs(e.x) got == TLCEval([i \in 1..Len(w) |-> <<w[i], x[i]>>])
             kk == IF r.t = "gauss" THEN Degree(r) ELSE K IN
         Clause(Within(PowSum(got, 0), Sub(d[Len(d)], d[1]), Mul(Mul(I(16), Eps(e)), Mag1(d, 0))), "weights sum to the length")
         \cup Clause(\A i \in 1..Len(x) : Inside(e, d, x[i]), "nodes inside the interval")
         \cup LET M == IF r.t = "gauss" THEN [k \in 1..(kk + 1) |-> Moment(d[1], d[Len(d)], k - 1)] ELSE Moms(r, d, kk) IN
              Clause(\A k \in 0..Degree(r) : Within(PowSum(got, k), M[k+1], Mul(Mul(I(64), Eps(e)), Mag1(d, k))), "exact to its degree")
              \cup Clause(\A k \in 0..kk : Within(PowSum(got, k), M[k+1], Mul(Mul(I(64), Eps(e)), Mag1(d, k))), "the rule over the pieces")
    [] e.k = "box" -> \* one partition per axis, a tree of polynomials
         LET r == DecR(e.rule) ds == [i \in 1..Len(e.ds) |-> Vs(e.ds[i])]
             ps == [q \in 1..Len(e.ps) |-> Pl(e.ps[q])]
             K == LET F[q \in 0..Len(ps)] == IF q = 0 THEN 0 ELSE IF MaxDeg(ps[q]) > F[q-1] THEN MaxDeg(ps[q]) ELSE F[q-1] IN F[Len(ps)]
             M == TLCEval([i \in 1..Len(ds) |-> Moms(r, ds[i], K)])
             G == TLCEval([i \in 1..Len(ds) |-> Mags(ds[i], K)]) IN
         Clause(e.shape, "tree and shape of the integral")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A q \in 1..Len(ps) : Near(e.res[q], TensorQuad(ps[q], M), Mul(Mul(I(64), Eps(e)), Add(Ten(-3), TensorQuad(AbsP(ps[q]), G)))), "product of the one-dimensional rules")
               \cup (IF K > Degree(r) THEN {} ELSE
                     LET E == TLCEval([i \in 1..Len(ds) |-> [k \in 1..(K + 1) |-> Moment(ds[i][1], ds[i][Len(ds[i])], k - 1)]]) IN
                     Clause(\A q \in 1..Len(ps) : Near(e.res[q], TensorQuad(ps[q], E), Mul(Mul(I(64), Eps(e)), Add(Ten(-3), TensorQuad(AbsP(ps[q]), G)))), "exact for polynomials of the rule's degree")))
    [] e.k \in {"disk", "ball"} ->
         LET r == DecR(e.rule) o == Vs(e.o) r1 == V(e.r1) r2 == V(e.r2) t1 == V(e.t1) t2 == V(e.t2)
             ps == [q \in 1..Len(e.ps) |-> Pl(e.ps[q])]
             c == [i \in 1..Len(o) |-> Add(RAbs(o[i]), r2)]
             vol == IF e.k = "disk" THEN Sq(r2) ELSE Mul(Sq(r2), r2)
             tol(q) == Mul(Mul(I(200), Eps(e)), Mul(Mul(I(8), Add(One, vol)), Add(One, PMag(ps[q], c))))
             ru(a, b, n) == Rule(r, Linspace(a, b, n))
             want(q) ==
               IF e.k = "disk" THEN
                 IF e.resolved THEN DiskInt(ps[q], r1, r2, o, CosSin(t1), CosSin(t2), Sub(t2, t1))
                 ELSE DiskQuad(ps[q], ru(r1, r2, e.n[1]), WithTrig(ru(t1, t2, e.n[2])), o)
               ELSE LET f1 == V(e.f1) f2 == V(e.f2) IN
                 IF e.resolved THEN BallInt(ps[q], r1, r2, o, CosSin(f1), CosSin(f2), Sub(f2, f1), CosSin(t1), CosSin(t2), Sub(t2, t1))
                 ELSE BallQuad(ps[q], ru(r1, r2, e.n[1]), WithTrig(ru(f1, f2, e.n[2])), WithTrig(ru(t1, t2, e.n[3])), o) IN
         Clause(e.shape, "tree and shape of the integral")
         \cup (IF ~e.shape THEN {} ELSE
               Clause(\A q \in 1..Len(ps) : Near(e.res[q], want(q), tol(q)),
                      (IF e.resolved THEN "exact moments of the " ELSE "the rule's sum over the ") \o e.k))
    [] OTHER -> {"unknown event"}
=============================================================================
