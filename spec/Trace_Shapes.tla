---------------------------- MODULE Trace_Shapes ----------------------------
(* Judges recorded evaluations of transformed and primitive bodies.         *)
EXTENDS Shapes, Poly, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
DecT(T) ==
  CASE T.t = "move" -> [t |-> "move", y |-> Vs(T.y)]
    [] T.t = "scale" -> [t |-> "scale", s |-> V(T.s)]
    [] T.t = "scaleax" -> [t |-> "scaleax", s |-> Vs(T.s)]
    [] T.t = "rot2" -> [t |-> "rot2", a |-> V(T.a), o |-> Vs(T.o)]
    [] T.t = "rot3" -> [t |-> "rot3", a |-> V(T.a), ax |-> Vs(T.ax), o |-> Vs(T.o)]
    [] T.t = "euler" -> [t |-> "euler", a |-> Vs(T.a), o |-> Vs(T.o)]
    [] T.t \in {"refl", "proj"} -> [t |-> T.t, n |-> Vs(T.n), o |-> Vs(T.o)]
    [] T.t = "rev" -> [t |-> "rev", axis |-> T.axis]
DecTs(s) == [i \in 1..Len(s) |-> DecT(s[i])]
DecS(S) ==
  CASE S.t = "cuboid" -> [t |-> "cuboid", lb |-> Vs(S.lb), ub |-> Vs(S.ub)]
    [] S.t \in {"sphere", "cylinder"} -> [t |-> S.t, r |-> V(S.r)]
    [] S.t = "ellipsoid" -> [t |-> "ellipsoid", ax |-> Vs(S.ax)]

(* Pull-back of gradients: the map is affine for the rigid chains used with *)
(* gradients, so its linear part is found by differences.                   *)
LinCol(Ts, x, i) == VSub(Pull(Ts, [x EXCEPT ![i] = Add(@, One)])[1], Pull(Ts, x)[1])

JShapes(e) ==
  CASE e.k = "pull" -> \* polynomial body under a chain of transformations
         LET q == Pull(DecTs(e.ts), Vs(e.x)) p == Pl(e.f) IN
         Clause(Near(e.res, Mul(q[2], PEval(p, q[1])),
                     Mul(Mul(I(64), Eps(e)), Mul(RAbs(q[2]), Add(One, Mul(PMag(p, q[1]), One))))), "value at the pre-image")
    [] e.k = "refuse" -> Clause(e.refused, "invalid arguments refused: " \o e.what)
    [] e.k = "prim" ->
         LET S == DecS(e.shape) Ts == DecTs(e.ts) x == Vs(e.x)
             q == Pull(Ts, x) y == q[1]
             d == Depth(S, y)
             tb == IF e.m = 64 THEN Ten(-8) ELSE Ten(-4)     \* on the boundary up to rounding
             tz == IF e.m = 64 THEN Ten(-6) ELSE Q(1, 100)   \* clearly off it
         IN IF ~Fin(e.val) THEN {"value not finite"}
            ELSE (IF Le(tz, d) THEN Clause(Pos(V(e.val)), "positive inside")
                  ELSE IF Le(d, Opp(tz)) THEN Clause(NegQ(V(e.val)), "negative outside")
                  ELSE IF Le(RAbs(d), tb) THEN Clause(Le(RAbs(V(e.val)), Mul(I(100), tb)), "zero on the boundary")
                  ELSE {})
                 \cup (IF e.least THEN Clause(Within(V(e.val), Mul(q[2], d), Mul(Mul(I(16), Eps(e)), Add(One, Add(RAbs(d), RAbs(V(e.val)))))), "with minimum and maximum: the distance to the nearest face") ELSE {})
                 \cup (IF ~e.hasgrad THEN {}
                       ELSE IF ~(AllFin(e.grad) /\ AllFin(e.fwd)) THEN {"derivative not finite"}
                       ELSE IF Le(RAbs(d), tb) /\ e.normalized /\ Regular(S, y, Q(1, 50))
                       THEN LET n == Normal(S, y)
                                g == [i \in 1..Len(x) |-> Mul(q[2], Dot(LinCol(Ts, x, i), n))]
                                t == IF e.m = 64 THEN Ten(-6) ELSE Q(1, 100)
                            IN Clause(AllNear(e.grad, g, t), "gradient is the inward unit normal")
                               \cup Clause(AllNear(e.fwd, g, t), "forward-mode gradient is the inward unit normal")
                       ELSE {})
    [] e.k = "norm1" -> \* first-order normalization of a polynomial p with value y and gradient g at x
         LET p == Pl(e.f) x == Vs(e.x) y == PEval(p, x) g == [i \in 1..Len(x) |-> PEval(PDiff(p, i), x)]
             g2 == Dot(g, g)
             tol == Mul(Mul(I(64), Eps(e)), Add(One, PMag(p, x)))
         IN IF ~Fin(e.val) THEN {"value not finite"}
            ELSE IF e.zero      \* a zero of p up to rounding
            THEN Clause(Le(RAbs(V(e.val)), Div(tol, SqrtR(g2))), "zero set kept")
                 \cup Clause(AllNear(e.grad, Unit(g), IF e.m = 64 THEN Ten(-5) ELSE Q(1, 50)), "unit gradient on the boundary")
            ELSE Clause(Le(RAbs(y), tol) \/ V(e.val)[1] = y[1], "sign kept")
    [] OTHER -> {"unknown event"}
=============================================================================
