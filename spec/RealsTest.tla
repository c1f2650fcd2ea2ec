----------------------------- MODULE RealsTest -----------------------------
(* Identities and known digits for Reals.                                   *)
EXTENDS Reals, TLC
Tiny == TwoTo(-90)
Eq(a, b) == Le(RAbs(Sub(a, b)), Tiny)
Xs == {Q(n, d) : n \in {-40, -7, -1, 0, 1, 2, 9, 100}, d \in {1, 3, 8, 17}}
ASSUME Lt(Q(355, 113), Add(Pi, Q(1, 3000000))) /\ Lt(Q(103993, 33102), Pi) /\ Lt(Pi, Q(104348, 33215))
ASSUME \A x \in Xs : LET c == CosSin(x) IN Eq(Add(Sq(c[1]), Sq(c[2])), One)
ASSUME \A x \in Xs : LET c == CosSin(x) d == CosSin(Add(x, Pi)) h == CosSin(Sub(Div(Pi, Two), x))
                     IN Eq(c[1], Opp(d[1])) /\ Eq(c[2], Opp(d[2])) /\ Eq(h[2], c[1]) /\ Eq(h[1], c[2])
ASSUME \A x \in {a \in Xs : Lt(RAbs(a), I(20))}, y \in {Q(1, 3), Q(-5, 2)} :
   LET s == Exp(Add(x, y)) IN Le(RAbs(Sub(s, Mul(Exp(x), Exp(y)))), Mul(TwoTo(-80), Add(One, s)))
ASSUME Lt(Q(2721, 1001), Exp(One)) /\ Lt(Exp(One), Q(1457, 536))
ASSUME Eq(Tanh(Zero), Zero) /\ Eq(Tanh(Q(3, 2)), Opp(Tanh(Q(-3, 2)))) 
ASSUME \A x \in {Two, Q(1, 3), I(1000003)} : Le(RAbs(Sub(Sq(SqrtR(x)), x)), TwoTo(-100))
ASSUME PrintT("RealsTest ok")
=============================================================================
