------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* The transcendental functions the specification needs, as rationals with *)
(* an absolute error far below every tolerance used in a verdict: working  *)
(* precision is KP bits, arguments of moderate size (|x| < 2^12) lose at   *)
(* most ~30 of them.                                                       *)
(***************************************************************************)
EXTENDS Rat

KP == 140
RR(a) == Round(a, KP)

(* sum_{j<=n} prod of x/j, Horner-like from the inside out *)
RECURSIVE ExpHorner(_, _, _)
ExpHorner(x, j, n) == IF j > n THEN One
                      ELSE RR(Add(One, Div(Mul(x, ExpHorner(x, j + 1, n)), I(j))))
RECURSIVE SqTimes(_, _)
SqTimes(a, n) == IF n = 0 THEN a ELSE SqTimes(RR(Mul(a, a)), n - 1)
RECURSIVE Halvings(_, _)
Halvings(a, n) == IF Lt(RAbs(a), Q(1, 16)) THEN n ELSE Halvings(Div(a, Two), n + 1)

RECURSIVE ExpPos(_)
ExpPos(x) == LET h == Halvings(x, 0)
             IN  SqTimes(ExpHorner(Div(x, TwoTo(h)), 1, 24), h)
Exp(x) == IF NegQ(x) THEN RR(Inv(ExpPos(Opp(x)))) ELSE ExpPos(x)

(* cos and sin by Taylor on the halved argument and angle doubling          *)
RECURSIVE CosHorner(_, _, _)   \* 1 - y/((2j-1)(2j)) * (...)  with y = x^2
CosHorner(y, j, n) == IF j > n THEN One
   ELSE RR(Sub(One, Div(Mul(y, CosHorner(y, j + 1, n)), I((2*j - 1) * (2*j)))))
RECURSIVE SinHorner(_, _, _)
SinHorner(y, j, n) == IF j > n THEN One
   ELSE RR(Sub(One, Div(Mul(y, SinHorner(y, j + 1, n)), I((2*j) * (2*j + 1)))))
RECURSIVE DoubleAngle(_, _)    \* <<cos, sin>>
DoubleAngle(cs, n) == IF n = 0 THEN cs
   ELSE DoubleAngle(<<RR(Sub(Sq(cs[1]), Sq(cs[2]))), RR(Mul(Two, Mul(cs[1], cs[2])))>>, n - 1)
CosSin(x) == LET h == Halvings(x, 0)
                 z == Div(x, TwoTo(h))
                 y == RR(Mul(z, z))
             IN  DoubleAngle(<<CosHorner(y, 1, 13), RR(Mul(z, SinHorner(y, 1, 13)))>>, h)
Cos(x) == CosSin(x)[1]
Sin(x) == CosSin(x)[2]

(* Machin: pi = 16 atan(1/5) - 4 atan(1/239)                                *)
RECURSIVE AtanInv(_, _, _)     \* sum_{j>=0} (-1)^j / ((2j+1) m^(2j+1)), z = m^-(2j+1)
AtanInv(m, j, z) == IF Lt(z, TwoTo(-KP)) THEN Zero
   ELSE LET t == Div(z, I(2*j + 1))
            r == AtanInv(m, j + 1, RR(Div(z, I(m * m))))
        IN  RR(Sub(t, r))
Pi == Sub(Mul(I(16), AtanInv(5, 0, Q(1, 5))), Mul(I(4), AtanInv(239, 0, Q(1, 239))))

Tanh(x) == LET e == Exp(Mul(Two, x)) IN
           IF Lt(x, I(-40)) THEN I(-1) ELSE IF Lt(I(40), x) THEN One
           ELSE RR(Sub(One, Div(Two, Add(e, One))))
SqrtR(x) == Sqrt(x, KP)
=============================================================================
