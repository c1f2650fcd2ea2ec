------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Distance functions of bodies: transformations (as maps of points back   *)
(* to the original body) and primitive shapes (as exact membership).       *)
(*                                                                         *)
(* A transformation is a record with field t:                              *)
(*   "move" y; "scale" s; "scaleax" s (per axis, or one); "rot2" a, o;     *)
(*   "rot3" a, ax, o; "euler" a, o; "refl" n, o; "proj" n, o; "rev" axis.  *)
(***************************************************************************)
EXTENDS Quat, FiniteSets

VAdd(x, y) == [i \in 1..Len(x) |-> Add(x[i], y[i])]
VSub(x, y) == [i \in 1..Len(x) |-> Sub(x[i], y[i])]
VScale(x, s) == [i \in 1..Len(x) |-> Mul(x[i], s)]
RECURSIVE DotFrom(_, _, _)
DotFrom(x, y, i) == IF i > Len(x) THEN Zero ELSE Add(Mul(x[i], y[i]), DotFrom(x, y, i + 1))
Dot(x, y) == DotFrom(x, y, 1)
VRound(x) == [i \in 1..Len(x) |-> RR(x[i])]

(* Rodrigues: x turned by angle t about the unit axis u (right-hand rule).  *)
Turn3(x, t, ax) ==
  LET n  == SqrtR(Dot(ax, ax))
      u  == [i \in 1..3 |-> RR(Div(ax[i], n))]
      cs == CosSin(t)
      k  == Mul(Dot(u, x), Sub(One, cs[1]))
      w  == Cross3(u, x)
  IN  [i \in 1..3 |-> RR(Add(Add(Mul(x[i], cs[1]), Mul(w[i], cs[2])), Mul(u[i], k)))]
(* x turned counter-clockwise by t in the plane.                            *)
Turn2(x, t) == LET cs == CosSin(t) IN
  << RR(Sub(Mul(cs[1], x[1]), Mul(cs[2], x[2]))), RR(Add(Mul(cs[2], x[1]), Mul(cs[1], x[2]))) >>

(* The point of the original body that a transformation carries to x.       *)
PreImage(T, x) ==
  CASE T.t = "move" -> VSub(x, T.y)
    [] T.t = "scale" -> VScale(x, Inv(T.s))
    [] T.t = "scaleax" -> [i \in 1..Len(x) |-> Div(x[i], T.s[IF Len(T.s) = 1 THEN 1 ELSE i])]
    [] T.t = "rot2" -> VAdd(Turn2(VSub(x, T.o), Opp(T.a)), T.o)
    [] T.t = "rot3" -> VAdd(Turn3(VSub(x, T.o), Opp(T.a), T.ax), T.o)
    [] T.t = "euler" -> \* the body turns about x, then y, then z
         VAdd(Turn3(Turn3(Turn3(VSub(x, T.o), Opp(T.a[3]), EZ), Opp(T.a[2]), EY), Opp(T.a[1]), EX), T.o)
    [] T.t = "refl" -> LET d == VSub(x, T.o) IN VSub(x, VScale(T.n, Div(Mul(Two, Dot(d, T.n)), Dot(T.n, T.n))))
    [] T.t = "proj" -> LET d == VSub(x, T.o) IN VSub(x, VScale(T.n, Div(Dot(d, T.n), Dot(T.n, T.n))))
    [] T.t = "rev" -> IF T.axis = 0 THEN << x[1], SqrtR(Add(Sq(x[2]), Sq(x[3]))) >>
                                    ELSE << SqrtR(Add(Sq(x[1]), Sq(x[3]))), x[2] >>
ValueFactor(T) == IF T.t = "scale" THEN T.s ELSE One

(* Transformations Ts[1], then Ts[2], ...: point and factor for the         *)
(* original function.                                                       *)
RECURSIVE Pull(_, _)
Pull(Ts, x) == IF Ts = <<>> THEN << VRound(x), One >>
               ELSE LET T == Ts[Len(Ts)]
                        q == Pull(SubSeq(Ts, 1, Len(Ts) - 1), VRound(PreImage(T, x)))
                    IN  << q[1], Mul(q[2], ValueFactor(T)) >>

-----------------------------------------------------------------------------
(* Primitive shapes.  Depth is positive inside, zero on the boundary and    *)
(* negative outside; Normal is the inward unit normal at a regular boundary *)
(* point.  S.t: "cuboid" lb, ub; "sphere" r; "cylinder" r; "ellipsoid" ax.  *)
RECURSIVE MinFrom(_, _)
MinFrom(s, i) == IF i = Len(s) THEN s[i] ELSE Min(s[i], MinFrom(s, i + 1))
Faces(S, x) == [j \in 1..(2 * Len(x)) |-> LET i == (j + 1) \div 2 IN
                   IF j % 2 = 1 THEN Sub(x[i], S.lb[i]) ELSE Sub(S.ub[i], x[i])]
RadOf(x) == SqrtR(Dot(x, x))
Depth(S, x) ==
  CASE S.t = "cuboid" -> MinFrom(Faces(S, x), 1)
    [] S.t = "sphere" -> Sub(S.r, RadOf(x))
    [] S.t = "cylinder" -> Sub(S.r, RadOf(<<x[1], x[2]>>))
    [] S.t = "ellipsoid" -> Sub(One, RadOf([i \in 1..Len(x) |-> Div(x[i], S.ax[i])]))
(* Distance of a boundary point from the nearest edge (cuboid only).        *)
Regular(S, x, d) == S.t = "cuboid" =>
   /\ Cardinality({j \in 1..(2 * Len(x)) : Le(RAbs(Faces(S, x)[j]), d)}) = 1
   /\ \A j \in 1..(2 * Len(x)) : Le(Opp(d), Faces(S, x)[j])
Unit(v) == VScale(v, Inv(RadOf(v)))
Normal(S, x) ==
  CASE S.t = "cuboid" -> LET F == Faces(S, x) j == CHOOSE j \in 1..Len(F) : \A k \in 1..Len(F) : Le(RAbs(F[j]), RAbs(F[k]))
                         IN [i \in 1..Len(x) |-> IF i = (j + 1) \div 2 THEN (IF j % 2 = 1 THEN One ELSE I(-1)) ELSE Zero]
    [] S.t = "sphere" -> Unit([i \in 1..Len(x) |-> Opp(x[i])])
    [] S.t = "cylinder" -> Unit([i \in 1..Len(x) |-> IF i <= 2 THEN Opp(x[i]) ELSE Zero])
    [] S.t = "ellipsoid" -> Unit([i \in 1..Len(x) |-> Opp(Div(x[i], Sq(S.ax[i])))])
=============================================================================
