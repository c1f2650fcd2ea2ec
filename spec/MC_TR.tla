------------------------------- MODULE MC_TR -------------------------------
(***************************************************************************)
(* The trust-region method on a catalogue of objectives, starting points   *)
(* and configurations: every history of updates and restarts up to a       *)
(* length.  Iterates are rounded to 2^-48 so that numbers stay short; the  *)
(* objective data are those of the rounded iterate.                        *)
(***************************************************************************)
EXTENDS TrustRegion, TLC, Json
CONSTANTS MaxLen, Objectives, Starts, Configs
VARIABLES obj, start, cf, x, delta, eps, iter, acts, sig, prev

(* Terms <<numerator, denominator, exponents>>.                             *)
Cat == << << <<1,1,<<2,0>>>>, <<3,1,<<0,2>>>>, <<1,1,<<1,1>>>>, <<-1,1,<<1,0>>>> >>,                      \* convex quadratic
          << <<1,1,<<2,0>>>>, <<-1,1,<<0,2>>>>, <<1,4,<<0,4>>>>, <<1,8,<<1,2>>>> >>,                      \* saddle at 0
          << <<1,1,<<0,0>>>>, <<-2,1,<<1,0>>>>, <<1,1,<<2,0>>>>, <<4,1,<<0,2>>>>, <<-8,1,<<2,1>>>>, <<4,1,<<4,0>>>> >>, \* curved valley
          << <<1,2,<<2,0>>>>, <<1,1,<<1,0>>>> >>,                                                         \* flat in y
          << <<1,3,<<3,0>>>>, <<-1,1,<<1,0>>>>, <<1,1,<<0,4>>>>, <<1,1,<<2,2>>>> >>,                      \* unbounded below
          << <<-1,1,<<2,0>>>>, <<-2,1,<<0,2>>>>, <<1,4,<<4,0>>>>, <<1,4,<<0,4>>>>, <<1,10,<<1,0>>>> >> >>  \* maximum at 0
StartCat == << <<Q(3,2), Q(-1,2)>>, <<Q(-1,4), Q(1,8)>>, <<Zero, One>>, <<Q(-3,2), Two>> >>
(* min, max, init, dec, decf, inc, incf, acc (pairs), forcing half-exponent, tol, maxcg *)
ConfCat == << [min |-> <<1,10000>>, max |-> <<2,1>>, init |-> <<1,1>>, dec |-> <<1,4>>, decf |-> <<1,4>>, inc |-> <<3,4>>, incf |-> <<2,1>>, acc |-> <<1,4>>, half |-> 1, tol |-> <<1,100>>, cg |-> 20],
              [min |-> <<1,8>>, max |-> <<4,1>>, init |-> <<3,1>>, dec |-> <<1,2>>, decf |-> <<1,8>>, inc |-> <<9,10>>, incf |-> <<3,1>>, acc |-> <<1,10>>, half |-> 2, tol |-> <<1,1000>>, cg |-> 20],
              [min |-> <<1,100>>, max |-> <<1,2>>, init |-> <<1,4>>, dec |-> <<7,8>>, decf |-> <<1,2>>, inc |-> <<15,16>>, incf |-> <<3,2>>, acc |-> <<7,8>>, half |-> 1, tol |-> <<1,1000>>, cg |-> 1],
              [min |-> <<1,4>>, max |-> <<8,1>>, init |-> <<8,1>>, dec |-> <<15,16>>, decf |-> <<1,16>>, inc |-> <<31,32>>, incf |-> <<2,1>>, acc |-> <<1,2>>, half |-> 1, tol |-> <<1,1000>>, cg |-> 20] >>
QQ(p) == Q(p[1], p[2])
Conf(i) == LET c == ConfCat[i] IN
  [min |-> QQ(c.min), max |-> QQ(c.max), init |-> QQ(c.init), dec |-> QQ(c.dec), decf |-> QQ(c.decf),
   inc |-> QQ(c.inc), incf |-> QQ(c.incf), acc |-> QQ(c.acc)]
F(i) == [k \in 1..Len(Cat[i]) |-> [c |-> Q(Cat[i][k][1], Cat[i][k][2]), e |-> Cat[i][k][3]]]
Short(v) == [i \in 1..Len(v) |-> Round(v[i], 48)]
Val(y) == PEval(F(obj), y)

Init == /\ obj \in Objectives /\ start \in Starts /\ cf \in Configs
        /\ x = StartCat[start] /\ delta = Conf(cf).init /\ eps = <<>> /\ iter = 0
        /\ acts = <<>> /\ sig = {} /\ prev = [x |-> StartCat[start], delta |-> Conf(cf).init, act |-> "init", acc |-> FALSE, atb |-> FALSE]

G == GradAt(F(obj), 2, x)
H == HessAt(F(obj), 2, x)
Tol == QQ(ConfCat[cf].tol)
NextEps(g) == EpsNext(eps, Norm(g), ConfCat[cf].half, Tol)
Solve(g, h, e) == CHOOSE o \in Subproblem(g, h, delta, e, ConfCat[cf].cg, Zero) : TRUE

Update ==
  LET c == Conf(cf) g == G h == H e == NextEps(g) o == Solve(g, h, e) p == Short(o.p)
      y == VAdd(x, p) dec == Decrease(g, h, p)
      stuck == ~Pos(dec)
      rho == IF stuck THEN Zero ELSE Round(Ratio(Val(x), Val(y), dec), 100)
      atb == AtBoundary(Norm(p), delta)
      acc == ~stuck /\ Accepts(c, rho)
      nd == IF stuck THEN delta ELSE Round(RadiusNext(c, delta, rho, atb), 60)
      s == (IF stuck THEN "stuck" ELSE IF acc THEN "acc" ELSE "rej") \o "-" \o o.why \o "-"
           \o (IF Lt(nd, delta) THEN "dn" ELSE IF Lt(delta, nd) THEN "up" ELSE "eq")
  IN /\ acts' = Append(acts, "u")
     /\ prev' = [x |-> x, delta |-> delta, act |-> IF Frozen(c, delta) THEN "frozen" ELSE "u", acc |-> acc, atb |-> atb]
     /\ IF Frozen(c, delta)
        THEN UNCHANGED <<x, delta, eps, iter>> /\ sig' = sig \cup {"frozen"}
        ELSE /\ x' = (IF acc THEN y ELSE x) /\ delta' = nd /\ eps' = e /\ iter' = iter + 1
             /\ sig' = sig \cup {s}
Restart == /\ acts # <<>> /\ acts[Len(acts)] # "r"
           /\ delta' = RestartRadius(Conf(cf), delta) /\ eps' = <<>>
           /\ acts' = Append(acts, "r") /\ sig' = sig \cup {IF delta' = delta THEN "restart" ELSE "reopen"}
           /\ prev' = [x |-> x, delta |-> delta, act |-> "r", acc |-> FALSE, atb |-> FALSE]
           /\ UNCHANGED <<x, iter>>
Next == Len(acts) < MaxLen /\ (Update \/ Restart) /\ UNCHANGED <<obj, start, cf>>
Spec == Init /\ [][Next]_<<obj, start, cf, x, delta, eps, iter, acts, sig, prev>>

(*------------------------------ properties -------------------------------*)
Monotone == Le(Val(x), Val(prev.x))
AllOrNothing == prev.act \in {"u", "frozen"} => (prev.acc /\ prev.act = "u") \/ x = prev.x
RadiusBounds == Le(Conf(cf).min, delta) /\ Le(delta, Max(Conf(cf).init, Conf(cf).max))
RadiusMoves == prev.act = "u" => (Lt(prev.delta, delta) => prev.acc /\ prev.atb)
FrozenStays == prev.act = "frozen" => x = prev.x /\ delta = prev.delta
Reopens == prev.act = "r" => Lt(Conf(cf).min, delta)
(* The subproblem of every reachable state: feasible, at least as good as   *)
(* steepest descent, cut exactly at the boundary, and at most two steps in  *)
(* two dimensions.                                                          *)
SubproblemOK ==
  LET g == G h == H o == Solve(g, h, NextEps(g)) np == Norm(o.p) IN
  /\ Le(np, Add(delta, TwoTo(-100)))
  /\ o.it > 0 => Le(Decrease(g, h, CauchyStep(g, h, delta)), Add(Decrease(g, h, o.p), TwoTo(-90)))
  /\ o.why \in {"curvature", "boundary"} => Le(RAbs(Sub(np, delta)), TwoTo(-90))
  /\ o.it <= 2

EmitOK == Len(acts) = MaxLen => PrintT("SCN " \o ToJson([obj |-> Cat[obj], x |-> [i \in 1..2 |-> <<StartCat[start][i][1] * (IF StartCat[start][i][2] = <<>> THEN 0 ELSE StartCat[start][i][2][1]), StartCat[start][i][3][1]>>],
                                    cf |-> ConfCat[cf], acts |-> acts, sig |-> sig]))
=============================================================================
