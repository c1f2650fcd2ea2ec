------------------------------ MODULE MC_RFun ------------------------------
(***************************************************************************)
(* Every set expression up to a length, as a stack program, in every       *)
(* system: the value stack and the sign stack evolve together and the sign *)
(* law is the invariant that they agree.                                   *)
(***************************************************************************)
EXTENDS RFun, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES sys, prog, vals, signs

Systems == { [t |-> "alpha", a |-> One], [t |-> "alpha", a |-> Zero], [t |-> "alpha", a |-> Q(-1, 2)],
             [t |-> "p", p |-> 2], [t |-> "p", p |-> 4], [t |-> "alpham", m |-> 2, a |-> Zero],
             [t |-> "alpham", m |-> 1, a |-> Half] }
Leaves == << I(-1), Q(3, 2), Zero >>
LeafSigns == << -1, 1, 0 >>

Init == sys \in Systems /\ prog = <<>> /\ vals = <<>> /\ signs = <<>>
NPush == Len(SelectSeq(prog, LAMBDA i : i = "leaf"))
Push == Len(vals) < 3 /\ NPush < 4 /\ \E i \in 1..3 :
          /\ prog' = Append(prog, "leaf") /\ vals' = Append(vals, Leaves[i]) /\ signs' = Append(signs, LeafSigns[i])
T(s, i) == s[Len(s) - i]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
Do2 == Len(vals) >= 2 /\ \E op \in Ops2 :
          /\ prog' = Append(prog, op)
          /\ vals' = Append(Pop(vals, 2), Val2(sys, op, T(vals, 1), T(vals, 0)))
          /\ signs' = Append(Pop(signs, 2), Sign2(op, T(signs, 1), T(signs, 0)))
Do1 == Len(vals) >= 1 /\ (prog = <<>> \/ T(prog, 0) # "neg")
          /\ prog' = Append(prog, "neg")
          /\ vals' = Append(Pop(vals, 1), Opp(T(vals, 0))) /\ signs' = Append(Pop(signs, 1), -T(signs, 0))
Next == Len(prog) < MaxLen /\ UNCHANGED sys /\ (Push \/ Do2 \/ Do1)
Spec == Init /\ [][Next]_<<sys, prog, vals, signs>>
View == <<sys, prog, signs, vals>>

Tiny == TwoTo(-40)
SignLaw == \A i \in 1..Len(vals) : SignOf(vals[i], Tiny) = signs[i]
SymmetricDual == Len(vals) >= 2 =>
   LET a == T(vals, 1) b == T(vals, 0) IN
   /\ Conj(sys, a, b) = Conj(sys, b, a) /\ Disj(sys, a, b) = Disj(sys, b, a)
   /\ Disj(sys, Opp(a), Opp(b)) = Opp(Conj(sys, a, b))
R1 == [t |-> "alpha", a |-> One]
MinMax == Len(vals) >= 2 => LET a == T(vals, 1) b == T(vals, 0) IN
   /\ Le(RAbs(Sub(Conj(R1, a, b), Min(a, b))), Tiny) /\ Le(RAbs(Sub(Disj(R1, a, b), Max(a, b))), Tiny)
Within(x, y, t) == Le(RAbs(Sub(x, y)), t)
BlendingOutside == Len(vals) >= 2 => LET a == T(vals, 1) b == T(vals, 0) r == [t |-> "rho", rho |-> Q(1, 3)] IN
   Le(Sq(r.rho), Add(Sq(a), Sq(b))) => /\ Within(Conj(r, a, b), Conj([t |-> "alpha", a |-> Zero], a, b), Tiny)
                                      /\ Within(Disj(r, a, b), Disj([t |-> "alpha", a |-> Zero], a, b), Tiny)
EmitOK == (Emit /\ Len(vals) = 1 /\ Len(prog) >= 3 /\ sys = R1) => PrintT("SCN " \o ToJson(prog))
=============================================================================
