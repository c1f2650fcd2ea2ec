-------------------------------- MODULE Ode --------------------------------
(***************************************************************************)
(* One-step methods for y' = F(y, t, a) with polynomial right-hand sides:  *)
(* F is a sequence of polynomials in the variables y, t, a (in this order).*)
(* Every operation is carried out on dual numbers <<value, tangent>>, so   *)
(* the derivative of the discrete trajectory comes with the trajectory.    *)
(***************************************************************************)
EXTENDS Poly, TLC

(* F at (y, t, a) and its derivative along (dy, dt, da).                    *)
AtDual(F, v, dv) ==
  TLCEval(<< [i \in 1..Len(F) |-> PEval(F[i], v)],
             [i \in 1..Len(F) |-> SumSeq([j \in 1..Len(v) |-> IF IsZero(dv[j]) THEN Zero ELSE Mul(dv[j], PEval(PDiff(F[i], j), v))])] >>)
Axpy(y, s, k) == TLCEval(<< [i \in 1..Len(y[1]) |-> Add(y[1][i], Mul(s[1], k[1][i]))],
                            [i \in 1..Len(y[1]) |-> Add(y[2][i], Add(Mul(s[1], k[2][i]), IF IsZero(s[2]) THEN Zero ELSE Mul(s[2], k[1][i])))] >>)
(* times and steps are dual numbers as well                                 *)
DAdd(s, t) == <<Add(s[1], t[1]), Add(s[2], t[2])>>
DDiv(s, c) == <<Div(s[1], c), Div(s[2], c)>>
Rhs(F, y, t, a) == AtDual(F, y[1] \o <<t[1]>> \o a[1], y[2] \o <<t[2]>> \o a[2])

Euler(F, y, t, h, a) == Axpy(y, h, Rhs(F, y, t, a))
Heun(F, y, t, h, a) ==
  LET h2 == DDiv(h, Two) k1 == Rhs(F, y, t, a) k2 == Rhs(F, Axpy(y, h, k1), DAdd(t, h), a) IN
  Axpy(Axpy(y, h2, k1), h2, k2)
Rk4(F, y, t, h, a) ==
  LET h2 == DDiv(h, Two) h6 == DDiv(h, I(6)) h3 == DDiv(h, I(3))
      k1 == Rhs(F, y, t, a)
      k2 == Rhs(F, Axpy(y, h2, k1), DAdd(t, h2), a)
      k3 == Rhs(F, Axpy(y, h2, k2), DAdd(t, h2), a)
      k4 == Rhs(F, Axpy(y, h, k3), DAdd(t, h), a)
  IN Axpy(Axpy(Axpy(Axpy(y, h6, k1), h3, k2), h3, k3), h6, k4)
StepOf(meth, F, y, t, h, a) ==
  CASE meth = "rk4" -> Rk4(F, y, t, h, a) [] meth = "euler" -> Euler(F, y, t, h, a) [] meth = "heun" -> Heun(F, y, t, h, a)

Const(x) == <<x, Zero>>
Plain(v) == <<v, [i \in 1..Len(v) |-> Zero]>>
=============================================================================
