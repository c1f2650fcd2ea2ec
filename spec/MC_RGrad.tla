----------------------------- MODULE MC_RGrad -----------------------------
(***************************************************************************)
(* Set expressions with their gradients by the leaves: every leaf is a     *)
(* body of its own, at most one of them has the point on its boundary.     *)
(***************************************************************************)
EXTENDS RFun, TLC, Json
CONSTANTS MaxLen, MaxLeaves, Emit
VARIABLES sys, prog, vals, grads, deps, on

Systems == { [t |-> "alpha", a |-> One], [t |-> "alpha", a |-> Zero], [t |-> "alpha", a |-> Q(-1, 2)],
             [t |-> "p", p |-> 2], [t |-> "p", p |-> 4], [t |-> "alpham", m |-> 2, a |-> Zero],
             [t |-> "alpham", m |-> 1, a |-> Half], [t |-> "rho", rho |-> Half] }
Size == << One, Q(3, 2), Q(2, 3), Q(7, 4) >>
T(s, i) == s[Len(s) - i]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
NLeaf == Len(SelectSeq(prog, LAMBDA i : i = "leaf"))
Unit(k) == [i \in 1..MaxLeaves |-> IF i = k THEN One ELSE Zero]
(* on: the number of the leaf that vanishes, or 0 *)
Init == sys \in Systems /\ prog = <<>> /\ vals = <<>> /\ grads = <<>> /\ deps = <<>> /\ on = 0
Push == /\ NLeaf < MaxLeaves /\ LET k == NLeaf + 1 IN
           \E sg \in {-1, 0, 1} : /\ sg = 0 => on = 0
                                  /\ on' = IF sg = 0 THEN k ELSE on
                                  /\ prog' = Append(prog, "leaf") /\ vals' = Append(vals, Mul(I(sg), Size[k]))
                                  /\ grads' = Append(grads, Unit(k)) /\ deps' = Append(deps, {k})
Do2 == Len(vals) >= 2 /\ \E op \in Ops2 :
   LET a == T(vals, 1) b == T(vals, 0) p == Part2(sys, op, a, b) IN
   /\ prog' = Append(prog, op)
   /\ vals' = Append(Pop(vals, 2), Val2(sys, op, a, b))
   /\ grads' = Append(Pop(grads, 2), TLCEval([i \in 1..MaxLeaves |-> RR(Add(Mul(p[1], T(grads, 1)[i]), Mul(p[2], T(grads, 0)[i])))]))
   /\ deps' = Append(Pop(deps, 2), T(deps, 1) \cup T(deps, 0))
   /\ UNCHANGED on
Do1 == /\ Len(vals) >= 1 /\ T(prog, 0) # "neg" /\ prog' = Append(prog, "neg")
       /\ vals' = Append(Pop(vals, 1), Opp(T(vals, 0)))
       /\ grads' = Append(Pop(grads, 1), [i \in 1..MaxLeaves |-> Opp(T(grads, 0)[i])])
       /\ UNCHANGED <<deps, on>>
Next == Len(prog) < MaxLen /\ UNCHANGED sys /\ (Push \/ Do2 \/ Do1)
Spec == Init /\ [][Next]_<<sys, prog, vals, grads, deps, on>>

Tiny == TwoTo(-60)
Small(x) == Le(RAbs(x), Tiny)
(* On the boundary of a composed body the gradient is that of the body     *)
(* whose boundary it is, or its opposite; nothing else enters.             *)
KeepsNormals == Normalized(sys) => \A i \in 1..Len(vals) : Small(vals[i]) =>
   /\ on \in deps[i]
   /\ \A k \in 1..MaxLeaves : IF k = on THEN Small(Sub(RAbs(grads[i][k]), One)) ELSE Small(grads[i][k])
OnlyItsLeaves == \A i \in 1..Len(vals) : \A k \in 1..MaxLeaves : k \notin deps[i] => grads[i][k] = Zero
(* the derivatives of the spec are derivatives: two-sided difference quotients converge to them *)
H == TwoTo(-25)
Quot(op, a, b, da, db) == Div(Sub(Val2(sys, op, Add(a, Mul(H, da)), Add(b, Mul(H, db))), Val2(sys, op, Sub(a, Mul(H, da)), Sub(b, Mul(H, db)))), Mul(Two, H))
(* (where an operand has just been pushed: all pairs of operands are reached so) *)
Differentiates == (Len(vals) >= 2 /\ Len(prog) < MaxLen /\ T(prog, 0) = "leaf") => LET a == T(vals, 1) b == T(vals, 0) IN \A op \in Ops2 : Reg2(sys, op, a, b) =>
   LET p == Part2(sys, op, a, b) m == Mul(I(64), Add(One, Pow(Add(RAbs(a), RAbs(b)), 6))) IN
   /\ Le(RAbs(Sub(Quot(op, a, b, One, Zero), p[1])), Mul(m, H))
   /\ Le(RAbs(Sub(Quot(op, a, b, Zero, One), p[2])), Mul(m, H))
(* systems that only know directions: Euler's relation *)
Homogeneous == (Len(vals) >= 2 /\ Len(prog) < MaxLen /\ T(prog, 0) = "leaf" /\ Normalized(sys)) => LET a == T(vals, 1) b == T(vals, 0) IN \A op \in Ops2 : Reg2(sys, op, a, b) =>
   LET p == Part2(sys, op, a, b) IN Small(Sub(Add(Mul(p[1], a), Mul(p[2], b)), Val2(sys, op, a, b)))
(* each operand counts with the orientation it has in the expression *)
Orientation == (Len(vals) >= 2 /\ sys.t = "alpha" /\ sys.a = Zero) => LET a == T(vals, 1) b == T(vals, 0) IN
   /\ Reg1(sys, a, b) => Le(Opp(Tiny), DConj(sys, a, b)) /\ Le(Opp(Tiny), DDisj(sys, a, b))
   /\ Reg2(sys, "diff", a, b) => Le(Part2(sys, "diff", a, b)[2], Tiny)
   /\ Reg2(sys, "impl", a, b) => Le(Part2(sys, "impl", a, b)[1], Tiny)
EmitOK == (Emit /\ Len(vals) = 1 /\ Len(prog) >= 3 /\ sys = [t |-> "p", p |-> 2] /\ on = 0) => PrintT("SCN " \o ToJson(prog))
=============================================================================
