-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials in variables 1..n over the rationals: a sequence of terms   *)
(* [c, e] (coefficient, exponents).  They are the functions on which       *)
(* differential operators, quadrature and time stepping have an exact      *)
(* meaning.                                                                *)
(***************************************************************************)
EXTENDS Rat, Sequences, Integers, FiniteSets

RECURSIVE MonoFrom(_, _, _)
MonoFrom(e, x, i) == IF i > Len(e) THEN One
                     ELSE IF e[i] = 0 THEN MonoFrom(e, x, i + 1)
                     ELSE Mul(Pow(x[i], e[i]), MonoFrom(e, x, i + 1))
Mono(e, x) == MonoFrom(e, x, 1)
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(p, x, k) == IF k > Len(p) THEN Zero
                      ELSE Add(Mul(p[k].c, Mono(p[k].e, x)), PEvalFrom(p, x, k + 1))
PEval(p, x) == PEvalFrom(p, x, 1)
(* Sum of the magnitudes of the terms: bounds cancellation error.           *)
PMag(p, x) == LET ax == [i \in 1..Len(x) |-> RAbs(x[i])]
              IN  PEvalFrom([k \in 1..Len(p) |-> [c |-> RAbs(p[k].c), e |-> p[k].e]], ax, 1)

PDiff(p, i) == LET q == [k \in 1..Len(p) |-> [c |-> Mul(p[k].c, I(p[k].e[i])),
                                              e |-> [p[k].e EXCEPT ![i] = IF @ > 0 THEN @ - 1 ELSE 0]]]
               IN  SelectSeq(q, LAMBDA t : ~IsZero(t.c))
PAdd(p, q) == p \o q
PScale(p, s) == [k \in 1..Len(p) |-> [p[k] EXCEPT !.c = Mul(@, s)]]
PNeg(p) == PScale(p, I(-1))
PSub(p, q) == p \o PNeg(q)
RECURSIVE PMul(_, _)
PMul(p, q) == IF p = <<>> THEN <<>>
              ELSE [k \in 1..Len(q) |-> [c |-> Mul(p[1].c, q[k].c), e |-> [i \in 1..Len(q[k].e) |-> p[1].e[i] + q[k].e[i]]]]
                   \o PMul(Tail(p), q)
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN <<>> ELSE PAdd(Head(s), PSum(Tail(s)))

(* Directional derivative along d (one number per variable).                *)
RECURSIVE PDirFrom(_, _, _)
PDirFrom(p, d, i) == IF i > Len(d) THEN <<>>
                     ELSE IF IsZero(d[i]) THEN PDirFrom(p, d, i + 1)
                     ELSE PAdd(PScale(PDiff(p, i), d[i]), PDirFrom(p, d, i + 1))
PDir(p, d) == PDirFrom(p, d, 1)

(* Equality as functions: the same coefficient for every monomial.          *)
CoefOf(p, e) == SumSeq([k \in 1..Len(p) |-> IF p[k].e = e THEN p[k].c ELSE Zero])
PEq(p, q) == \A e \in {p[k].e : k \in 1..Len(p)} \cup {q[k].e : k \in 1..Len(q)} : CoefOf(p, e) = CoefOf(q, e)

(* Integral over the box [lo, hi].                                          *)
RECURSIVE MonoInt(_, _, _, _)
MonoInt(e, lo, hi, i) == IF i > Len(e) THEN One
   ELSE Mul(Div(Sub(Pow(hi[i], e[i] + 1), Pow(lo[i], e[i] + 1)), I(e[i] + 1)), MonoInt(e, lo, hi, i + 1))
PInt(p, lo, hi) == SumSeq([k \in 1..Len(p) |-> Mul(p[k].c, MonoInt(p[k].e, lo, hi, 1))])
=============================================================================
