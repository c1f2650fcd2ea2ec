-------------------------------- MODULE RFun --------------------------------
(***************************************************************************)
(* Systems of R-functions, the set expressions built with them, and the    *)
(* stack machine on which such expressions are programs.                   *)
(*                                                                         *)
(* A system is a record: [t |-> "alpha", a], [t |-> "alpham", m, a],       *)
(* [t |-> "p", p] or [t |-> "rho", rho].                                   *)
(***************************************************************************)
EXTENDS Reals, Sequences, Integers

Rad(s, a, b) ==   \* what conjunction subtracts and disjunction adds
  CASE s.t \in {"alpha", "alpham"} ->
         SqrtR(Sub(Add(Sq(a), Sq(b)), Mul(Two, Mul(s.a, Mul(a, b)))))
    [] s.t = "p" -> Root(Add(Pow(a, s.p), Pow(b, s.p)), s.p, 100)
    [] s.t = "rho" -> LET q == Sub(Add(Sq(a), Sq(b)), Sq(s.rho)) IN
         SqrtR(Add(Add(Sq(a), Sq(b)), Mul(Inv(Mul(I(8), s.rho)), Mul(q, Sub(q, RAbs(q))))))
Factor(s, a, b) ==
  CASE s.t = "alpha" -> Inv(Add(One, s.a))
    [] s.t = "alpham" -> LET r == Add(Sq(a), Sq(b)) IN
         Mul(Inv(Add(One, s.a)), IF s.m % 2 = 0 THEN Pow(r, s.m \div 2) ELSE Pow(SqrtR(r), s.m))
    [] OTHER -> One
Conj(s, a, b) == Mul(Factor(s, a, b), Sub(Add(a, b), Rad(s, a, b)))
Disj(s, a, b) == Mul(Factor(s, a, b), Add(Add(a, b), Rad(s, a, b)))

Ops2 == {"inter", "union", "diff", "xor", "impl", "equiv"}
(* Value of an operation on the operand values.                             *)
Val2(s, op, a, b) ==
  CASE op = "inter" -> Conj(s, a, b)
    [] op = "union" -> Disj(s, a, b)
    [] op = "diff"  -> Conj(s, a, Opp(b))
    [] op = "xor"   -> Disj(s, Conj(s, a, Opp(b)), Conj(s, Opp(a), b))
    [] op = "impl"  -> Disj(s, Opp(a), b)
    [] op = "equiv" -> Conj(s, Disj(s, a, Opp(b)), Disj(s, Opp(a), b))
(* Its meaning for sets: 1 inside, 0 on the boundary, -1 outside.           *)
Mn(a, b) == IF a <= b THEN a ELSE b
Mx(a, b) == IF a <= b THEN b ELSE a
Sign2(op, a, b) ==
  CASE op = "inter" -> Mn(a, b) [] op = "union" -> Mx(a, b) [] op = "diff" -> Mn(a, -b)
    [] op = "xor" -> Mx(Mn(a, -b), Mn(-a, b)) [] op = "impl" -> Mx(-a, b)
    [] op = "equiv" -> Mn(Mx(a, -b), Mx(-a, b))
SignOf(v, tol) == IF Le(RAbs(v), tol) THEN 0 ELSE v[1]

(* Magnitude by which rounding in an operation is judged.                   *)
Mag2(s, a, b) == LET m == Add(RAbs(a), RAbs(b)) f == Factor(s, a, b) IN
   IF s.t = "rho" THEN Add(m, Add(Rad(s, a, b), s.rho)) ELSE Mul(m, Max(f, One))
MagOp(s, op, a, b) ==
  IF op \in {"xor", "equiv"}
  THEN LET m == Mag2(s, a, b) IN Mul(I(4), IF s.t = "alpham" THEN Add(Mag2(s, m, m), Add(m, One)) ELSE Mul(m, Max(Factor(s, One, One), One)))
  ELSE Mag2(s, a, b)

-----------------------------------------------------------------------------
(* Derivatives.  DRad is the derivative of Rad by its first operand; all    *)
(* systems are symmetric, so the other one is found by exchanging them.     *)
DRad(s, a, b) ==
  CASE s.t \in {"alpha", "alpham"} -> Div(Sub(a, Mul(s.a, b)), Rad(s, a, b))
    [] s.t = "p" -> Pow(Div(a, Rad(s, a, b)), s.p - 1)
    [] s.t = "rho" -> LET q == Sub(Add(Sq(a), Sq(b)), Sq(s.rho)) IN
         Div(Mul(a, Add(One, Mul(Inv(Mul(I(4), s.rho)), Sub(q, RAbs(q))))), Rad(s, a, b))
DFactor(s, a, b) ==
  IF s.t # "alpham" \/ s.m = 0 THEN Zero
  ELSE Div(Mul(Mul(I(s.m), a), Factor(s, a, b)), Add(Sq(a), Sq(b)))
DConj(s, a, b) == RR(Add(Mul(DFactor(s, a, b), Sub(Add(a, b), Rad(s, a, b))), Mul(Factor(s, a, b), Sub(One, DRad(s, a, b)))))
DDisj(s, a, b) == RR(Add(Mul(DFactor(s, a, b), Add(Add(a, b), Rad(s, a, b))), Mul(Factor(s, a, b), Add(One, DRad(s, a, b)))))
(* Partial derivatives of an operation by its two operands.                 *)
Part2(s, op, a, b) ==
  LET na == Opp(a) nb == Opp(b) IN
  CASE op = "inter" -> << DConj(s, a, b), DConj(s, b, a) >>
    [] op = "union" -> << DDisj(s, a, b), DDisj(s, b, a) >>
    [] op = "diff"  -> << DConj(s, a, nb), Opp(DConj(s, nb, a)) >>
    [] op = "impl"  -> << Opp(DDisj(s, na, b)), DDisj(s, b, na) >>
    [] op = "xor"   -> LET c == Conj(s, a, nb) d == Conj(s, na, b) p == DDisj(s, c, d) q == DDisj(s, d, c) IN
                       << Sub(Mul(p, DConj(s, a, nb)), Mul(q, DConj(s, na, b))), Sub(Mul(q, DConj(s, b, na)), Mul(p, DConj(s, nb, a))) >>
    [] op = "equiv" -> LET c == Disj(s, a, nb) d == Disj(s, na, b) p == DConj(s, c, d) q == DConj(s, d, c) IN
                       << Sub(Mul(p, DDisj(s, a, nb)), Mul(q, DDisj(s, na, b))), Sub(Mul(q, DDisj(s, b, na)), Mul(p, DDisj(s, nb, a))) >>
(* Where an operation is differentiable with room to spare: not both        *)
(* operands (almost) zero and, for minimum and maximum, no tie.             *)
Room == Q(1, 100)
Reg1(s, a, b) == LET m == Max(RAbs(a), RAbs(b)) IN
   s.t = "rho" \/ (Le(Room, m) /\ ((s.t \in {"alpha", "alpham"} /\ s.a = One) => Le(Mul(Room, m), RAbs(Sub(a, b)))))
Reg2(s, op, a, b) ==
  LET na == Opp(a) nb == Opp(b) IN
  CASE op \in {"inter", "union"} -> Reg1(s, a, b)
    [] op = "diff" -> Reg1(s, a, nb) [] op = "impl" -> Reg1(s, na, b)
    [] op = "xor" -> Reg1(s, a, nb) /\ Reg1(s, na, b) /\ Reg1(s, Conj(s, a, nb), Conj(s, na, b))
    [] op = "equiv" -> Reg1(s, a, nb) /\ Reg1(s, na, b) /\ Reg1(s, Disj(s, a, nb), Disj(s, na, b))
Normalized(s) == s.t \in {"alpha", "p"}
=============================================================================
