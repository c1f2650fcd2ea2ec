----------------------------- MODULE Trace_Domain -----------------------------
(* Judges recorded maps, measures, membership tests and normals of domains.   *)
EXTENDS Domain, Judge

DecD(d) ==
  CASE d.t = "box" -> [t |-> "box", lb |-> Vs(d.lb), ub |-> Vs(d.ub)]
    [] d.t = "ball" -> [t |-> "ball", o |-> Vs(d.o), r |-> V(d.r)]
    [] d.t = "annulus" -> [t |-> "annulus", o |-> Vs(d.o), r1 |-> V(d.r1), r2 |-> V(d.r2)]
    [] d.t \in {"par", "tri"} -> [t |-> d.t, a |-> Vs(d.a), b |-> Vs(d.b), c |-> Vs(d.c)]
    [] d.t = "line" -> [t |-> "line", p |-> [i \in 1..Len(d.p) |-> Vs(d.p[i])]]
Size(D) ==
  CASE D.t = "box" -> Max(VMax(D.lb), VMax(D.ub))
    [] D.t = "ball" -> Add(VMax(D.o), D.r)
    [] D.t = "annulus" -> Add(VMax(D.o), D.r2)
    [] D.t \in {"par", "tri"} -> Max(VMax(D.a), Max(VMax(D.b), VMax(D.c)))
    [] D.t = "line" -> LET F[i \in 0..Len(D.p)] == IF i = 0 THEN Zero ELSE Max(VMax(D.p[i]), F[i-1]) IN F[Len(D.p)]
(* a distance that is rounding only; frame coordinates are relative to the sides *)
Tiny(e, D) == Mul(Mul(I(64), Eps(e)), Max(One, Size(D)))

(* the image of a batch is the batch of the images *)
PointByPoint(e, t) == Clause(Len(e.bat) = Len(e.sgl) /\ \A i \in 1..Len(e.bat) : AllFin(e.sgl[i]) /\ AllNear(e.bat[i], Vs(e.sgl[i]), t), "batches are mapped point by point")

JDom(e) ==
  CASE e.k = "map" ->
         LET D == DecD(e.dom) m == Measure(D) IN
         Clause(e.shape, "one image per parameter, for every batch shape")
         \cup (IF ~e.shape THEN {} ELSE
               IF ~(\A i \in 1..Len(e.pts) : AllFin(e.pts[i])) THEN {"image not finite"} ELSE
               Clause(\A i \in 1..Len(e.pts) : In(D, Vs(e.pts[i]), Tiny(e, D)), "image inside the domain")
               \cup PointByPoint(e, Tiny(e, D))
               \cup Clause(\A i \in 1..Len(e.jac) : (\A r \in 1..Len(e.jac[i]) : AllFin(e.jac[i][r]))
                              /\ \E q \in (IF D.t = "tri" THEN {1, 2} ELSE {1}) :
                                   /\ Within(Density(Vss(e.jac[i])), Mul(I(q), m), Mul(IF e.m = 64 THEN Ten(-8) ELSE Ten(-3), Max(m, Q(1, 10))))
                                   /\ Within(Density(Vss(e.jac[1])), Mul(I(q), m), Mul(IF e.m = 64 THEN Ten(-8) ELSE Ten(-3), Max(m, Q(1, 10)))), "constant density: the measure")
               \cup (IF ~e.hassup THEN {} ELSE
                     Clause(Near(e.sup, m, Mul(IF e.m = 64 THEN Ten(-8) ELSE Ten(-3), Max(m, Q(1, 10)))), "reported measure")))
    [] e.k = "cover" -> \* means over a fine parameter grid
         LET D == DecD(e.dom) n == Dim(D) s2 == Sq(Max(One, Size(D))) mu == Vs(e.mean) c == MeanOf(D) IN
         Clause(\A i \in 1..n : Near(e.mean[i], c[i], Mul(Q(1, 100), Max(One, Size(D)))), "centre of mass of the image")
         \cup Clause(\A i \in 1..n, j \in 1..n : Near(e.cov[i][j], Covar(D, i, j), Mul(Q(2, 100), s2)), "spread of the image")
    [] e.k = "includes" ->
         LET D == DecD(e.dom) x == Vs(e.x) t == Tiny(e, D) IN
         (IF In(D, x, Opp(t)) \/ (D.t = "box" /\ In(D, x, Zero)) THEN Clause(e.res, "member of the domain") ELSE {})
         \cup (IF ~In(D, x, t) THEN Clause(~e.res, "not a member of the domain") ELSE {})
    [] e.k = "affine" -> \* matrix and offset of the map that takes ref[i] to img[i]
         IF ~(AllFin(e.off) /\ \A r \in 1..Len(e.B) : AllFin(e.B[r])) THEN {"map not finite"} ELSE
         LET B == Vss(e.B) o == Vs(e.off) t == IF e.m = 64 THEN Ten(-10) ELSE Ten(-3) IN
         Clause(\A i \in 1..Len(e.ref) : LET x == Vs(e.ref[i]) y == Vs(e.img[i])
                    mag == SumSeq([j \in 1..Len(x) |-> RAbs(x[j])]) IN
                  Len(B) = Len(y) /\ \A r \in 1..Len(B) :
                  Within(Add(o[r], SumSeq([j \in 1..Len(x) |-> Mul(B[r][j], x[j])])), y[r],
                         Mul(t, Add(Max(One, RAbs(y[r])), Add(RAbs(o[r]), SumSeq([j \in 1..Len(x) |-> RAbs(Mul(B[r][j], x[j]))]))))), "reference points are mapped to their images")
    [] e.k = "bmap" ->
         LET D == DecD(e.dom) t == Tiny(e, D) IN
         Clause(e.shape, "one image per parameter, for every batch shape")
         \cup (IF ~e.shape THEN {} ELSE
               IF ~(\A i \in 1..Len(e.pts) : AllFin(e.pts[i])) THEN {"image not finite"} ELSE
               Clause(\A i \in 1..Len(e.pts) : OnBnd(D, Vs(e.pts[i]), t), "image on the boundary")
               \cup PointByPoint(e, t)
               \cup (IF Len(e.jac) = 0 THEN {} ELSE
                     LET ok == \A i \in 1..Len(e.jac) : \A r \in 1..Len(e.jac[i]) : AllFin(e.jac[i][r]) IN
                     IF ~ok THEN {"derivative not finite"} ELSE
                     LET m == BndMeasure(D) ds == TLCEval([i \in 1..Len(e.jac) |-> Div(Density(Vss(e.jac[i])), m)])
                         tt == IF e.m = 64 THEN Ten(-7) ELSE Q(5, 1000) IN
                     Clause(\A i \in 1..Len(ds) : Within(ds[i], ds[1], tt), "constant speed")
                     \cup Clause(\E q \in 1..4 : Within(ds[1], I(q), Mul(I(q), tt)), "speed a multiple of the boundary's measure")))
    [] e.k = "share" ->
         LET D == DecD(e.dom) s == Shares(D) IN
         Clause(Len(e.parts) = Len(s) /\ \A i \in 1..Len(s) : Near(e.parts[i], s[i], Q(2, 100)), "share of every boundary part")
    [] e.k = "normal" -> \* e.got: normals were returned
         LET D == DecD(e.dom) n == Len(e.pts)
             near == IF Has(e, "tol") THEN Div(V(e.tol), Two)    \* well within the tolerances
                     ELSE Mul(IF e.m = 64 THEN Ten(-9) ELSE Ten(-6), Max(Ten(-3), Size(D)))
             far == IF Has(e, "tol") THEN Mul(Two, V(e.tol)) ELSE Mul(Ten(-3), Max(One, Size(D)))
             allOn == \A i \in 1..n : OnBnd(D, Vs(e.pts[i]), near)
             someOff == \E i \in 1..n : ~OnBnd(D, Vs(e.pts[i]), far)
             tt == IF e.m = 64 THEN Ten(-7) ELSE Ten(-3) IN
         (IF allOn THEN Clause(e.got, "normals on the boundary are returned") ELSE {})
         \cup (IF someOff THEN Clause(~e.got, "no normals if a point is off the boundary") ELSE {})
         \cup (IF ~e.got \/ someOff THEN {} ELSE
               Clause(e.shape, "one normal per point")
               \cup (IF ~e.shape THEN {} ELSE
                     Clause(\A i \in 1..n : \E v \in Normals(D, Vs(e.pts[i]), far) : AllNear(e.ns[i], v, tt), "outward unit normal")))
    [] e.k = "equal" -> Clause(e.eq, "equal parameters, equal domains")
                        \cup Clause(e.hash, "equal domains, equal hashes")
                        \cup Clause(e.neq, "different parameters, different domains")
                        \cup Clause(e.static, "usable as a static argument")
    [] OTHER -> {"unknown event"}
=============================================================================
