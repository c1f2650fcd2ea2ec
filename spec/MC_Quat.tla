------------------------------ MODULE MC_Quat ------------------------------
(***************************************************************************)
(* All stack programs up to a length over a few leaves: TLC evaluates each *)
(* of them and checks the laws of the algebra on every stack reached.  The *)
(* programs (without their leaves) are the scenarios replayed in the code. *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets
CONSTANTS MaxLen, Ops2, Ops1, OpsS, Emit
VARIABLES prog, stack

Leaves == { <<One, Two, Opp(One), Half>>, <<Zero, Zero, One, Zero>>, <<Q(3, 2), Opp(Two), Zero, One>> }
Scalars == {Two, Q(-1, 3)}

Init == prog = <<>> /\ stack = <<>>
Fresh == {q \in Leaves : q \notin {stack[i] : i \in 1..Len(stack)}}
Push == Len(stack) < 3 /\ \E q \in IF prog = <<>> THEN Leaves ELSE {CHOOSE q \in Fresh : TRUE} :
           prog' = Append(prog, "push") /\ stack' = Append(stack, q)
Top(i) == stack[Len(stack) - i]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
Do2 == Len(stack) >= 2 /\ \E op \in Ops2 :
          /\ op \in NeedsInverse => Invertible(Top(0))
          /\ prog' = Append(prog, op) /\ stack' = Append(Pop(2), Apply2(op, Top(1), Top(0)))
Do1 == Len(stack) >= 1 /\ \E op \in Ops1 :
          /\ op = "recip" => Invertible(Top(0))
          /\ prog' = Append(prog, op) /\ stack' = Append(Pop(1), Apply1(op, Top(0)))
DoS == Len(stack) >= 1 /\ \E op \in OpsS, s \in {CHOOSE s \in Scalars : TRUE} :
          prog' = Append(prog, op) /\ stack' = Append(Pop(1), ApplyS(op, Top(0), s))
Next == Len(prog) < MaxLen /\ (Push \/ Do2 \/ Do1 \/ DoS)
Spec == Init /\ [][Next]_<<prog, stack>>

TypeOK == Len(stack) <= 3 /\ \A i \in 1..Len(stack) : Len(stack[i]) = 4 /\ \A j \in 1..4 : stack[i][j][1] \in {-1, 0, 1}
(* every value was on top of the stack when it was computed *)
Elems == IF stack = <<>> THEN {} ELSE {Top(0)}
ASSUME LET u == <<Zero, One, Zero, Zero>> v == <<Zero, Zero, One, Zero>> w == <<Zero, Zero, Zero, One>> IN
   /\ QMul(u, u) = QNeg(QOne) /\ QMul(v, v) = QNeg(QOne) /\ QMul(w, w) = QNeg(QOne)
   /\ QMul(QMul(u, v), w) = QNeg(QOne)             \* Hamilton's rules
NormMultiplicative == \A p \in Elems, q \in Leaves : QNorm2(QMul(p, q)) = Mul(QNorm2(p), QNorm2(q))
ConjReverses == \A p \in Elems, q \in Leaves : QConj(QMul(p, q)) = QMul(QConj(q), QConj(p))
Inverses == \A p \in Elems : Invertible(p) => QMul(p, QRecip(p)) = QOne /\ QMul(QRecip(p), p) = QOne
Ring == \A p \in Elems, q \in Leaves, r \in Leaves :
   /\ QMul(QMul(p, q), r) = QMul(p, QMul(q, r))
   /\ QMul(p, QAdd(q, r)) = QAdd(QMul(p, q), QMul(p, r))
   /\ QMul(QAdd(q, r), p) = QAdd(QMul(q, p), QMul(r, p))
DivCancels == \A p \in Elems, q \in Leaves : QMul(Apply2("rdiv", p, q), q) = p /\ QMul(q, Apply2("ldiv", p, q)) = p
X3 == <<Two, Opp(One), Q(1, 3)>>
Isometry == \A p \in Elems : Invertible(p) =>
   LET y == QRot(X3, p) z == QRot(EX, p) IN
   /\ Dot3(y, y) = Dot3(X3, X3) /\ Dot3(y, z) = Dot3(X3, EX)
   /\ QRot(Cross3(X3, EX), p) = Cross3(y, z)                     \* proper
   /\ QRot(X3, QScale(p, Q(-7, 3))) = y                          \* only the direction matters
   /\ QRot(y, QConj(p)) = X3
   /\ \A q \in Leaves : QRot(y, q) = QRot(X3, QMul(p, q))
Reflection == \A p \in Elems : LET n == QImag(p) IN ~IsZero(Dot3(n, n)) =>
   /\ Refl(n, n) = [i \in 1..3 |-> Opp(n[i])] /\ Refl(Refl(X3, n), n) = X3
   /\ QImag(QMul(QMul(QPure(n), QPure(X3)), QPure(n))) = [i \in 1..3 |-> Mul(Dot3(n, n), Refl(X3, n)[i])]
Powers == \A p \in Elems : Invertible(p) => QMul(QPowInt(p, 3), QPowInt(p, -2)) = p

(* A finished program leaves one value; these are the scenarios.            *)
EmitOK == (Emit /\ Len(stack) = 1 /\ Len(prog) = MaxLen) => PrintT("SCN " \o ToJson(prog))
=============================================================================
