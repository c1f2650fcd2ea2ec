------------------------------ MODULE Trace_Ode ------------------------------
(* Judges recorded trajectories and their derivatives: each entry is one    *)
(* step from the observed previous entry.                                   *)
EXTENDS Ode, Judge

Pl(s) == [k \in 1..Len(s) |-> [c |-> V(s[k][1]), e |-> s[k][2]]]
Pls(s) == [i \in 1..Len(s) |-> Pl(s[i])]
MaxAbs(v) == LET F[i \in 0..Len(v)] == IF i = 0 THEN One ELSE Max(RAbs(v[i]), F[i-1]) IN F[Len(v)]
(* allowance: rounding relative to the largest term entering the step       *)
FMag(F, v) == MaxAbs([i \in 1..Len(F) |-> PMag(F[i], v)])
Tol(e, F, v, h, d) == Mul(Mul(I(64), Eps(e)), Add(MaxAbs(v), Mul(Add(RAbs(h), Pow(RAbs(h), 4)), Add(d, FMag(F, v)))))

JOde(e) ==
  LET F == Pls(e.F) a == Vs(e.a) IN
  CASE e.k = "traj" ->
         LET ts == Vs(e.ts) nT == Len(ts) IN
         Clause(e.shape, "tree and shape of the trajectory")
         \cup Clause(Len(e.ys) = nT, "one entry per time point")
         \cup (IF Len(e.ys) # nT THEN {} ELSE
               IF ~(\A i \in 1..nT : AllFin(e.ys[i])) THEN {"not finite"} ELSE
               Clause(e.ys[1] = e.y0, "starts with the initial value")
               \cup UNION { LET y == Vs(e.ys[i]) h == Sub(ts[i+1], ts[i])
                                w == StepOf(e.meth, F, Plain(y), Const(ts[i]), Const(h), Plain(a))[1] IN
                            Clause(\A j \in 1..Len(w) : Near(e.ys[i+1][j], w[j], Tol(e, F, y \o <<ts[i]>> \o a, h, MaxAbs(w))), "one step from the previous entry")
                          : i \in 1..(nT - 1) })
    [] e.k = "step" ->
         LET y == Vs(e.y) w == StepOf(e.meth, F, Plain(y), Const(V(e.t)), Const(V(e.h)), Plain(a))[1] IN
         Clause(AllNear(e.res, w, Tol(e, F, y \o <<V(e.t)>> \o a, V(e.h), MaxAbs(w))), "one step of the method")
    [] e.k = "sens" -> \* tangent of the trajectory along (dy, dts, da)
         LET ts == Vs(e.ts) nT == Len(ts) da == Vs(e.da) dt == Vs(e.dts) IN
         Clause(Len(e.ys) = nT /\ Len(e.ds) = nT, "one entry per time point")
         \cup (IF ~(Len(e.ys) = nT /\ Len(e.ds) = nT) THEN {} ELSE
               IF ~(\A i \in 1..nT : AllFin(e.ys[i]) /\ AllFin(e.ds[i])) THEN {"not finite"} ELSE
               Clause(Vs(e.ds[1]) = Vs(e.dy), "derivative of the initial value")
               \cup UNION { LET y == Vs(e.ys[i]) dy == Vs(e.ds[i]) h == Sub(ts[i+1], ts[i])
                                w == StepOf(e.meth, F, <<y, dy>>, <<ts[i], dt[i]>>, <<h, Sub(dt[i+1], dt[i])>>, <<a, da>>)[2]
                                v == y \o <<ts[i]>> \o a
                                t == Mul(Mul(Tol(e, F, v, h, MaxAbs(w)), Add(One, RAbs(h))), Mul(MaxAbs(dy \o da \o dt), Add(One, FMag(F, v)))) IN
                            Clause(\A j \in 1..Len(w) : Near(e.ds[i+1][j], w[j], t), "derivative of one step (" \o e.mode \o ")")
                          : i \in 1..(nT - 1) })
    [] OTHER -> {"unknown event"}
=============================================================================
