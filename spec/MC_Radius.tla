----------------------------- MODULE MC_Radius -----------------------------
(***************************************************************************)
(* The radius machine alone: ratios from every region of the line,         *)
(* thresholds included, with and without reaching the boundary, restarts.  *)
(***************************************************************************)
EXTENDS TrustRegion, Json
CONSTANTS MaxLen, Configs
VARIABLES cf, delta, acts, last

(* dyadic, so that the ladder can be replayed without rounding *)
ConfCat == << [min |-> <<1,16>>, max |-> <<4,1>>, init |-> <<1,1>>, dec |-> <<1,4>>, decf |-> <<1,4>>, inc |-> <<3,4>>, incf |-> <<2,1>>, acc |-> <<1,4>>],
              [min |-> <<1,8>>, max |-> <<3,1>>, init |-> <<1,1>>, dec |-> <<1,2>>, decf |-> <<1,2>>, inc |-> <<1,2>>, incf |-> <<2,1>>, acc |-> <<1,8>>],
              [min |-> <<1,2>>, max |-> <<8,1>>, init |-> <<2,1>>, dec |-> <<3,8>>, decf |-> <<1,8>>, inc |-> <<7,8>>, incf |-> <<8,1>>, acc |-> <<0,1>>] >>
QQ(p) == Q(p[1], p[2])
Conf(i) == LET c == ConfCat[i] IN
  [min |-> QQ(c.min), max |-> QQ(c.max), init |-> QQ(c.init), dec |-> QQ(c.dec), decf |-> QQ(c.decf),
   inc |-> QQ(c.inc), incf |-> QQ(c.incf), acc |-> QQ(c.acc)]
Rhos(i) == LET c == Conf(i) e == Q(1, 64) IN
  { I(-3), Zero, I(2), c.acc, Sub(c.acc, e), Add(c.acc, e), c.dec, Sub(c.dec, e), Add(c.dec, e), c.inc, Sub(c.inc, e), Add(c.inc, e) }

Init == cf \in Configs /\ delta = Conf(cf).init /\ acts = <<>> /\ last = <<>>
Update(rho, b) ==
  LET c == Conf(cf) fz == Frozen(c, delta) IN
  /\ delta' = (IF fz THEN delta ELSE RadiusNext(c, delta, rho, b))
  /\ acts' = Append(acts, <<"u", rho, b>>)
  /\ last' = [d |-> delta, rho |-> rho, b |-> b, fz |-> fz]
Restart == /\ delta' = RestartRadius(Conf(cf), delta) /\ acts' = Append(acts, <<"r">>) /\ last' = <<>>
Next == /\ Len(acts) < MaxLen /\ UNCHANGED cf
        /\ (Restart \/ \E rho \in Rhos(cf), b \in BOOLEAN : Update(rho, b))
Spec == Init /\ [][Next]_<<cf, delta, acts, last>>

Bounds == Le(Conf(cf).min, delta) /\ Le(delta, Conf(cf).max)
GrowsOnlyAtBoundary == last # <<>> => (Lt(last.d, delta) => last.b /\ Lt(Conf(cf).inc, last.rho))
ShrinksOnBadRatio == last # <<>> => (Lt(delta, last.d) => Lt(last.rho, Conf(cf).dec))
BadRatioShrinks == last # <<>> /\ ~last.fz /\ Lt(last.rho, Conf(cf).dec) => Lt(delta, last.d)
FrozenStays == last # <<>> /\ last.fz => delta = last.d
(* a refused step always shrinks the region: no step is repeated for ever   *)
RefusalShrinks == last # <<>> /\ ~last.fz /\ ~Accepts(Conf(cf), last.rho) => Lt(delta, last.d)

Dy(q) == <<q[1] * (IF q[2] = <<>> THEN 0 ELSE q[2][1]), q[3][1]>>
EmitOK == Len(acts) = MaxLen => PrintT("SCN " \o ToJson([cf |-> ConfCat[cf],
            acts |-> [k \in 1..Len(acts) |-> IF acts[k][1] = "r" THEN <<"r">> ELSE <<"u", Dy(acts[k][2]), acts[k][3]>>]]))
=============================================================================
