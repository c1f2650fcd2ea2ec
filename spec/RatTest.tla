------------------------------ MODULE RatTest ------------------------------
(* Checks the Java evaluation of Rat against its TLA+ definitions wherever  *)
(* TLC's 32-bit integers can evaluate the definitions, and the field laws   *)
(* beyond that.                                                             *)
EXTENDS Rat, TLC, FiniteSets

Small == {MkDef(n, d) : n \in -7..7, d \in 1..6}
ASSUME \A n \in -9..9, d \in (-9..9) \ {0} : Q(n, d) = MkDef(n, d)
ASSUME \A a \in Small, b \in Small :
  /\ Add(a, b) = AddDef(a, b) /\ Sub(a, b) = SubDef(a, b) /\ Mul(a, b) = MulDef(a, b)
  /\ b[1] # 0 => Div(a, b) = DivDef(a, b)
  /\ Le(a, b) = LeDef(a, b) /\ Lt(a, b) = LtDef(a, b)
ASSUME \A a \in Small : Opp(a) = OppDef(a) /\ Floor(a) = FloorDef(a)
ASSUME \A a \in Small, k \in {0, 3, 5} : Round(a, k) = RoundDef(a, k)
ASSUME \A a \in {x \in Small : x[1] >= 0}, k \in {0, 2} : Sqrt(a, k) = SqrtDef(a, k) /\ Root(a, 3, k) = RootDef(a, 3, k)
ASSUME \A h \in -3..3, l \in {0, 1, 5}, e \in {-4, -1, 0, 1} : FromFloat(<<h, l, e, 0>>) = FloatDef(<<h, l, e, 0>>)
Big == {Mul(Pow(I(n), k), Inv(Pow(I(d), j))) : n \in {-12345, 7, 1000003}, k \in {3, 11}, d \in {3, 999983}, j \in {2, 9}}
ASSUME \A a \in Big, b \in Big :
  /\ Sub(Add(a, b), b) = a /\ Div(Mul(a, b), b) = a
  /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a) /\ Opp(Opp(a)) = a
  /\ (Lt(a, b) <=> ~Le(b, a)) /\ (Lt(a, b) <=> NegQ(Sub(a, b)))
  /\ \A c \in Big : Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c))
ASSUME \A a \in Big : Le(Round(a, 40), a) /\ Lt(a, Add(Round(a, 40), TwoTo(-40)))
ASSUME \A a \in Big : ~NegQ(a) => LET r == Sqrt(a, 60) IN Le(Sq(r), a) /\ Lt(a, Sq(Add(r, TwoTo(-60))))
ASSUME PrintT("RatTest ok")
=============================================================================
