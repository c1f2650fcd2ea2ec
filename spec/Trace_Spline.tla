---------------------------- MODULE Trace_Spline ----------------------------
(* Judges recorded spline bases, grids and activations.                      *)
EXTENDS Spline, Judge

Tol(e) == Mul(I(4), Eps(e))
Act(a, x) == CASE a = "tanh" -> Tanh(x) [] a = "sin" -> Sin(x) [] a = "square" -> Sq(x) [] a = "id" -> x [] a = "zero" -> Zero
DAct(a, x) == CASE a = "tanh" -> Sub(One, Sq(Tanh(x))) [] a = "sin" -> Cos(x) [] a = "square" -> Mul(Two, x) [] a = "id" -> One [] a = "zero" -> Zero
(* derivatives where both sides agree: a kink has none *)
SmoothAt(r, x, k, i, t) == ~AtKnot(x, t) \/ Within(DB("r", r, x, k, i, t), DB("l", r, x, k, i, t), Mul(Ten(-12), Add(MB("r", r, x, k, i, t), MB("l", r, x, k, i, t))))

BasisBad(e) == \* values at points, each with the number of its grid
  LET ts == TLCEval([g \in 1..Len(e.grids) |-> Vs(e.grids[g])]) IN
  Clause(e.shape, "one basis per point and feature") \cup
  (IF ~e.shape THEN {} ELSE UNION {
    LET x == V(e.x[p]) t == ts[e.gi[p]] k == e.deg res == e.res[p] IN
    IF ~AllFin(res) THEN {"finite"}
    ELSE LET got == Vs(res) b == Basis("r", x, k, t) IN
      Clause(Len(got) = Len(b) /\ \A i \in 1..Len(b) : Within(got[i], b[i], Tol(e)), "values of the B-splines")
      \cup Clause(\A i \in 1..Len(got) : ~NegQ(got[i]), "non-negative")
      \cup Clause(\A i \in 1..Len(got) : (Lt(x, t[i]) \/ Lt(t[i + k + 1], x)) => IsZero(got[i]), "zero outside its own knots")
      \cup (IF Len(t) >= 2 * k + 2 /\ Inside(x, k, t) THEN Clause(Within(SumSeq(got), One, Tol(e)), "sums to one between the interior knots") ELSE {})
    : p \in 1..Len(e.x) })

JSpline(e) ==
  CASE e.k = "basis" -> BasisBad(e)
    [] e.k = "deriv" -> \* all basis functions' r-th derivative at points
         LET t == Vs(e.t) k == e.deg IN
         UNION { LET x == V(e.x[p]) IN
                 IF ~AllFin(e.res[p]) THEN {"derivatives are finite"}
                 ELSE Clause(Len(e.res[p]) = NumBasis(k, t) /\ \A i \in 1..NumBasis(k, t) :
                        SmoothAt(e.r, x, k, i, t) => Within(V(e.res[p][i]), DB("r", e.r, x, k, i, t), Mul(Tol(e), Add(One, MB("r", e.r, x, k, i, t)))), "derivative, " \o e.how)
               : p \in 1..Len(e.x) }
    [] e.k = "motion" -> \* along a motion of the point and of the knots, forward and reverse
         LET k == e.deg x == Dual(V(e.x), V(e.dx))
             t == TLCEval([j \in 1..Len(e.t) |-> Dual(V(e.t[j]), V(e.dt[j]))])
             n == NumBasis(k, e.t)
             D == TLCEval([i \in 1..n |-> BD("r", x, k, i, t)])
             rev == Add(Mul(V(e.gx), V(e.dx)), SumSeq([j \in 1..Len(e.t) |-> Mul(V(e.gt[j]), V(e.dt[j]))]))
             m == SumSeq([i \in 1..n |-> Mul(RAbs(V(e.ct[i])), Add(One, D[i][3]))])
         IN IF ~(AllFin(e.jvp) /\ Fin(e.gx) /\ AllFin(e.gt)) THEN {"derivatives are finite"}
            ELSE IF AtKnot(x[1], Vs(e.t)) THEN {}
            ELSE Clause(\A i \in 1..n : Within(V(e.jvp[i]), D[i][2], Mul(Tol(e), Add(One, D[i][3]))), "derivative along a motion of point and knots")
                 \cup Clause(Within(rev, SumSeq([i \in 1..n |-> Mul(V(e.ct[i]), D[i][2])]), Mul(Tol(e), m)), "reverse mode agrees")
    [] e.k = "grid" ->
         LET a == V(e.start) b == V(e.stop) g == Grid(a, b, e.pn, e.pd, e.num) s == Add(RAbs(a), RAbs(b)) t == Mul(Tol(e), s) IN
         IF ~AllFin(e.res) THEN {"finite"}
         ELSE Clause(Len(e.res) = e.num /\ \A j \in 1..e.num : Within(V(e.res[j]), g[j], t), "nodes of the generated grid")
              \cup Clause(\A j \in 1..(e.num - 1) : IF Lt(Mul(Ten(3), t), Sub(g[j + 1], g[j])) THEN Lt(V(e.res[j]), V(e.res[j + 1])) ELSE Le(V(e.res[j]), V(e.res[j + 1])), "the grid increases")
    [] e.k = "init" ->
         LET g == Grid(V(e.start), V(e.stop), e.pn, e.pd, e.num) t == Mul(Tol(e), Add(RAbs(V(e.start)), RAbs(V(e.stop)))) IN
         Clause(e.names = (IF e.param THEN <<"grids", "params">> ELSE <<"params">>), "a grid variable exactly when the grid is parameterized")
         \cup Clause(e.coefshape, "one coefficient per basis function and feature")
         \cup Clause(e.coefinit, "coefficients come from the initializer")
         \cup (IF ~e.param THEN {} ELSE
               Clause(Len(e.grid) = e.features, "one grid per feature")
               \cup Clause(\A f \in 1..Len(e.grid) : AllNear(e.grid[f], g, t), "stored grids start as the generated one"))
    [] e.k = "act" -> \* rows of features: x[p][f], with coefficients and grid per feature
         Clause(e.shape, "the output has the shape of the input") \cup
         (IF ~e.shape THEN {} ELSE
         LET F == Len(e.coefs)
             c == TLCEval([f \in 1..F |-> Vs(e.coefs[f])])
             t == TLCEval([f \in 1..F |-> IF e.own THEN Vs(e.grid[f]) ELSE Grid(V(e.start), V(e.stop), e.pn, e.pd, e.num)])
         IN UNION { LET x == V(e.x[p][f]) k == e.deg
                        s == SumSeq([i \in 1..Len(c[f]) |-> RAbs(c[f][i])])
                        b == Act(e.act, x)
                        sp == SplineAt("r", x, c[f], k, t[f])
                        \* generated nodes are rounded: the value is off by at most the local slope
                        tl == Mul(Tol(e), Add(Add(One, RAbs(x)), Mul(s, V(e.slope)))) IN
                    IF ~Fin(e.res[p][f]) THEN {"finite"}
                    ELSE IF ~e.own /\ \E j \in 1..Len(t[f]) : Within(x, t[f][j], Mul(Ten(3), Mul(Eps(e), Add(RAbs(V(e.start)), RAbs(V(e.stop)))))) /\ k = 0 THEN {}
                    ELSE Clause(Within(V(e.res[p][f]), Add(b, sp), tl), "activation plus spline")
                  : p \in 1..Len(e.x), f \in 1..F })
    [] e.k = "agrad" -> \* gradient of the sum of the outputs of one feature vector
         LET F == Len(e.coefs)
             c == TLCEval([f \in 1..F |-> Vs(e.coefs[f])])
             t == TLCEval([f \in 1..F |-> Vs(e.grid[f])]) k == e.deg IN
         UNION { LET x == V(e.x[f]) n == Len(c[f])
                     s == SumSeq([i \in 1..n |-> Mul(RAbs(c[f][i]), Add(One, MB("r", 1, x, k, i, t[f])))]) IN
                 IF ~(AllFin(e.gx) /\ AllFin(e.gc[f])) THEN {"finite"}
                 ELSE Clause(AllNear(e.gc[f], Basis("r", x, k, t[f]), Tol(e)), "sensitivity to the coefficients is the basis")
                      \cup (IF AtKnot(x, t[f]) THEN {} ELSE
                            Clause(Near(e.gx[f], Add(DAct(e.act, x), SumSeq([i \in 1..n |-> Mul(c[f][i], DB("r", 1, x, k, i, t[f]))])), Mul(Tol(e), Add(Add(Two, RAbs(x)), s))), "derivative of the activation"))
               : f \in 1..F }
    [] OTHER -> {"unknown event " \o e.k}
=============================================================================
