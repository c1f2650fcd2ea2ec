------------------------------- MODULE MC_Ode -------------------------------
(***************************************************************************)
(* Trajectories over every sequence of time increments up to a length, for *)
(* a catalogue of right-hand sides and the methods.                        *)
(***************************************************************************)
EXTENDS Ode, Json
CONSTANTS MaxLen, Rhss, Methods
VARIABLES f, meth, ts, ys, hs

(* variables y1, y2, t, a *)
M(n, d, e) == [c |-> Q(n, d), e |-> e]
Cat == << << << M(1, 1, <<0,0,0,0>>), M(-2, 1, <<0,0,0,1>>) >>, << M(1, 3, <<0,0,0,0>>) >> >>,              \* constant
          << << M(1, 1, <<0,0,3,0>>), M(-1, 2, <<0,0,1,1>>) >>, << M(2, 1, <<0,0,2,0>>), M(1, 1, <<0,0,0,0>>) >> >>,  \* time only
          << << M(1, 1, <<0,1,0,0>>) >>, << M(-1, 1, <<1,0,0,1>>), M(-1, 4, <<0,1,0,0>>) >> >>,             \* linear
          << << M(1, 2, <<1,1,0,0>>), M(1, 1, <<0,0,1,0>>) >>, << M(-1, 2, <<2,0,0,0>>), M(1, 1, <<0,0,0,1>>) >> >> >> \* quadratic, forced
A0 == Q(3, 2)
Y0 == <<Q(1, 2), I(-1)>>
Incs == {Q(1, 2), Q(-1, 4), One, Zero}
Sh(y) == [i \in 1..Len(y) |-> Round(y[i], 60)]

Init == f \in Rhss /\ meth \in Methods /\ ts = <<Q(1, 4)>> /\ ys = <<Y0>> /\ hs = <<>>
Next == /\ Len(hs) < MaxLen
        /\ \E h \in Incs :
             /\ hs' = Append(hs, h)
             /\ ts' = Append(ts, Add(ts[Len(ts)], h))
             /\ ys' = Append(ys, Sh(StepOf(meth, Cat[f], Plain(ys[Len(ys)]), Const(ts[Len(ts)]), Const(h), Plain(<<A0>>))[1]))
        /\ UNCHANGED <<f, meth>>
Spec == Init /\ [][Next]_<<f, meth, ts, ys, hs>>

n == Len(ys)
Lengths == Len(ts) = n /\ Len(hs) = n - 1 /\ ys[1] = Y0
NoMoveNoChange == n > 1 /\ IsZero(hs[n-1]) => \A i \in 1..2 : Le(RAbs(Sub(ys[n][i], ys[n-1][i])), TwoTo(-58))
(* exactness: every method on constants; rk4 on cubic, heun on linear time functions *)
Anti(p, t) == SumSeq([k \in 1..Len(p) |-> Mul(Mul(p[k].c, Pow(A0, p[k].e[4])), Div(Pow(t, p[k].e[3] + 1), I(p[k].e[3] + 1)))])
Exact == (f = 1 \/ (f = 2 /\ meth = "rk4")) =>
   \A i \in 1..2 : Le(RAbs(Sub(Sub(ys[n][i], Y0[i]), Sub(Anti(Cat[f][i], ts[n]), Anti(Cat[f][i], ts[1])))), TwoTo(-50))
(* on linear systems rk4 is the Taylor polynomial of degree 4 of the flow   *)
LinApply(v) == << v[2], Sub(Opp(Mul(A0, v[1])), Div(v[2], I(4))) >>
Taylor(v, h) == LET a1 == LinApply(v) a2 == LinApply(a1) a3 == LinApply(a2) a4 == LinApply(a3) IN
   [i \in 1..2 |-> Add(v[i], Add(Mul(h, a1[i]), Add(Mul(Div(Pow(h, 2), I(2)), a2[i]), Add(Mul(Div(Pow(h, 3), I(6)), a3[i]), Mul(Div(Pow(h, 4), I(24)), a4[i])))))]
TaylorFour == (f = 3 /\ meth = "rk4" /\ n > 1) => LET w == Taylor(ys[n-1], hs[n-1]) IN \A i \in 1..2 : Le(RAbs(Sub(ys[n][i], w[i])), TwoTo(-58))
(* the tangent of a step is linear in its direction *)
TangentLinear == n > 1 =>
   LET D(u) == StepOf(meth, Cat[f], <<ys[n-1], u>>, Const(ts[n-1]), Const(hs[n-1]), Plain(<<A0>>))[2]
       u == <<One, Zero>> v == <<Zero, One>> IN
   D(<<Two, I(-3)>>) = [i \in 1..2 |-> Sub(Mul(Two, D(u)[i]), Mul(I(3), D(v)[i]))]
(* moving the end point of a step moves the state along the right-hand side *)
(* when the solution is a straight line, and a shift of both ends does not  *)
(* matter when the right-hand side does not mention time                    *)
TimeTangent == n > 1 =>
   LET D(s, d) == StepOf(meth, Cat[f], Plain(ys[n-1]), <<ts[n-1], s>>, <<hs[n-1], d>>, Plain(<<A0>>))[2]
       R == AtDual(Cat[f], ys[n-1] \o <<ts[n-1], A0>>, <<Zero, Zero, Zero, Zero>>)[1] IN
   /\ f = 1 => D(Zero, Two) = [i \in 1..2 |-> Mul(Two, R[i])]
   /\ f \in {1, 3} => D(One, Zero) = <<Zero, Zero>>
EmitOK == Len(hs) = MaxLen => PrintT("SCN " \o ToJson([rhs |-> f, meth |-> meth,
             hs |-> [k \in 1..Len(hs) |-> <<hs[k][1] * (IF hs[k][2] = <<>> THEN 0 ELSE hs[k][2][1]), hs[k][3][1]>>]]))
=============================================================================
