----------------------------- MODULE TrustRegion -----------------------------
(***************************************************************************)
(* The trust-region method: truncated conjugate gradients for the          *)
(* subproblem, the ratio test, the radius update, restarts.                *)
(*                                                                         *)
(* Numbers are exact; decisions of the method are comparisons, and a       *)
(* comparison whose operands differ by less than a margin may be decided   *)
(* either way in floating point.  The subproblem is therefore specified as *)
(* the set of its possible outcomes; with margin 0 it is deterministic.    *)
(***************************************************************************)
EXTENDS Reals, Poly, TLC

(*---------------------------- linear algebra -----------------------------*)
RECURSIVE DotF(_, _, _)
DotF(a, b, i) == IF i > Len(a) THEN Zero ELSE Add(Mul(a[i], b[i]), DotF(a, b, i + 1))
Dot(a, b) == DotF(a, b, 1)
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], b[i])])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> Sub(a[i], b[i])])
VAxpy(a, s, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], Mul(s, b[i]))])
VOpp(a) == TLCEval([i \in 1..Len(a) |-> Opp(a[i])])
VScale(s, a) == TLCEval([i \in 1..Len(a) |-> Mul(s, a[i])])
VRound(a) == TLCEval([i \in 1..Len(a) |-> Round(a[i], 220)])
ZeroV(n) == [i \in 1..n |-> Zero]
Norm(a) == Sqrt(Dot(a, a), 160)
MatVec(H, v) == TLCEval([i \in 1..Len(H) |-> Dot(H[i], v)])
AddDiag(H, s) == TLCEval([i \in 1..Len(H) |-> [j \in 1..Len(H) |-> IF i = j THEN Add(H[i][j], s) ELSE H[i][j]]])

(*-------------------------- quadratic subproblem -------------------------*)
(* Decrease of the quadratic model g.p + p.Hp/2.                            *)
Decrease(g, H, p) == Opp(Add(Dot(g, p), Mul(Half, Dot(p, MatVec(H, p)))))
(* The best step along steepest descent inside the region.                  *)
CauchyStep(g, H, delta) ==
  LET gg == Dot(g, g) c == Dot(g, MatVec(H, g)) tb == Div(delta, Norm(g))
      t == IF ~Pos(c) THEN tb ELSE Min(Div(gg, c), tb)
  IN VScale(Opp(t), g)
(* Where the path leaves the region: |z + tau d| = delta, tau >= 0.         *)
ToBoundary(z, d, delta) ==
  LET a == Dot(d, d) b == Dot(z, d) c == Sub(Dot(z, z), Sq(delta))
      disc == Sub(Sq(Div(b, a)), Div(c, a))
      tau == Max(Zero, Sub(Sqrt(Max(disc, Zero), 160), Div(b, a)))
  IN VRound(VAxpy(z, tau, d))

(* Truth values of a comparison a <= b within a margin.                     *)
Cmp(a, b, m) == IF Le(RAbs(Sub(a, b)), m) THEN {TRUE, FALSE} ELSE {Le(a, b)}

(* Outcomes of the truncated conjugate-gradient iteration from (z, d, r)    *)
(* after k steps; mg is the relative margin of comparisons, g0 the size of  *)
(* the gradient.  An outcome reports why the iteration stopped.             *)
RECURSIVE CGFrom(_, _, _, _, _, _, _, _, _, _)
CGFrom(k, z, d, r, H, delta, eps, max, mg, g0) ==
  LET Hd == VRound(MatVec(H, d))
      c == Dot(d, Hd)
      cm == Mul(mg, Mul(Norm(d), Max(Norm(Hd), Mul(TwoTo(-20), Norm(d)))))
      neg == IF IsZero(c) THEN {TRUE} ELSE Cmp(c, Zero, cm)
      cut(why) == [p |-> ToBoundary(z, d, delta), it |-> k + 1, why |-> why, curv |-> c]
      alpha == Div(Dot(r, r), c)
      z1 == VRound(VAxpy(z, alpha, d))
      r1 == VRound(VAxpy(r, alpha, Hd))
      nz == Norm(z1) nr == Norm(r1)
      out == Cmp(delta, nz, Mul(mg, delta))
      small == Cmp(nr, eps, Add(Mul(mg, eps), Mul(mg, Mul(TwoTo(-8), g0))))
      beta == Div(Dot(r1, r1), Dot(r, r))
      d1 == VRound(VAxpy(VOpp(r1), beta, d))
      go == CGFrom(k + 1, z1, d1, r1, H, delta, eps, max, mg, g0)
      inner(why) == [p |-> z1, it |-> k + 1, why |-> why, curv |-> c]
  IN (IF TRUE \in neg THEN {cut("curvature")} ELSE {})
     \cup (IF Pos(c) /\ FALSE \in neg
           THEN (IF TRUE \in out THEN {cut("boundary")} ELSE {})
                \cup (IF FALSE \in out
                      THEN (IF TRUE \in small THEN {inner("tolerance")} ELSE {})
                           \cup (IF FALSE \in small /\ Pos(nr)
                                 THEN IF k + 1 >= max THEN {inner("limit")} ELSE go
                                 ELSE {})
                      ELSE {})
           ELSE {})
Subproblem(g, H, delta, eps, max, mg) ==
  LET n == Len(g) ng == Norm(g)
      small == IF IsZero(ng) THEN {TRUE} ELSE Cmp(ng, eps, Mul(mg, ng))
      stay(why) == [p |-> ZeroV(n), it |-> 0, why |-> why, curv |-> Zero]
  IN (IF TRUE \in small THEN {stay("tolerance")} ELSE {})
     \cup (IF FALSE \in small
           THEN IF max <= 0 THEN {stay("limit")}
                ELSE CGFrom(0, ZeroV(n), VOpp(g), g, H, delta, eps, max, mg, ng)
           ELSE {})

(* The forcing tolerance; the exponent is a rational n/2.                   *)
Forcing(ng, half) == LET q == IF half % 2 = 0 THEN Pow(ng, half \div 2) ELSE Pow(Sqrt(ng, 160), half)
                     IN Mul(Min(Half, q), ng)
EpsNext(prev, ng, half, tol) == Max(tol, IF prev = <<>> THEN Forcing(ng, half) ELSE Min(prev, Forcing(ng, half)))

(*------------------------------ the method -------------------------------*)
(* cfg: max, min, inc, incf, dec, decf, acc, init (radii, thresholds and    *)
(* factors).  The step has reached the boundary if its length is the radius *)
(* up to rounding (relative 1e-5, absolute 1e-8).                           *)
AtBoundary(len, delta) == Le(RAbs(Sub(len, delta)), Add(Ten(-8), Mul(Ten(-5), delta)))
RadiusNext(cfg, delta, rho, atb) ==
  Max(cfg.min,
      IF Lt(rho, cfg.dec) THEN Mul(delta, cfg.decf)
      ELSE IF Lt(cfg.inc, rho) /\ atb THEN Min(Mul(delta, cfg.incf), cfg.max)
      ELSE delta)
Accepts(cfg, rho) == Le(cfg.acc, rho)
Frozen(cfg, delta) == Le(delta, cfg.min)
RestartRadius(cfg, delta) == IF Frozen(cfg, delta) THEN cfg.init ELSE delta

(* Objective data at a point: the objective P(x), and the function Q whose  *)
(* gradient and curvature drive the method (Q = P unless the user supplies  *)
(* gradients).                                                              *)
GradAt(Qp, n, x) == TLCEval([i \in 1..n |-> PEval(PDiff(Qp, i), x)])
HessAt(Qp, n, x) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j >= i THEN PEval(PDiff(PDiff(Qp, i), j), x)
                                                    ELSE PEval(PDiff(PDiff(Qp, j), i), x)]])
Ratio(old, new, dec) == Div(Sub(old, new), dec)

(*----------------------- optima of perturbed objectives ------------------*)
(* If the objective Q has a stationary point x, that of Q + t m is at       *)
(* x + t J to first order in t, where J solves Hess(Q) J + grad(m) = 0.     *)
SensResidual(H, J, gm) == VAdd(MatVec(H, J), gm)
=============================================================================
