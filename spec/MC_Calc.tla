------------------------------ MODULE MC_Calc ------------------------------
(***************************************************************************)
(* Every sequence of derivative requests up to a length, on every argument *)
(* layout: the state is the polynomial reached by differentiating.         *)
(***************************************************************************)
EXTENDS Calc, TLC, Json
CONSTANTS MaxLen, Layouts
VARIABLES sizes, reqs, p
LayoutsDef == { <<1>>, <<1, 1>>, <<1, 2>>, <<3>>, <<2, 1>>, <<1, 1, 1>> }

(* a polynomial with every mixed third derivative non-trivial               *)
Ex(n, i, k) == [j \in 1..n |-> IF j = i THEN k ELSE 0]
P0(n) == [k \in 1..n |-> [c |-> Q(k + 1, 2), e |-> Ex(n, k, 3)]]
         \o << [c |-> I(5), e |-> [j \in 1..n |-> 2]], [c |-> I(-1), e |-> [j \in 1..n |-> 1]] >>
Dirn(n) == [j \in 1..n |-> I(IF j % 2 = 0 THEN -1 ELSE 2)]
Requests(s) == {[t |-> "arg", i |-> i] : i \in 1..Len(s)}
               \cup {[t |-> "comp", i |-> i, j |-> j] : i \in {k \in 1..Len(s) : s[k] > 1}, j \in 1..3}
               \cup {[t |-> "dir", d |-> Dirn(NVars(s))]}
Valid(s, r) == r.t = "comp" => r.j <= s[r.i]

Init == /\ sizes \in Layouts /\ reqs = <<>> /\ p = P0(NVars(sizes))
Next == /\ Len(reqs) < MaxLen
        /\ \E r \in Requests(sizes) : /\ Valid(sizes, r) /\ reqs' = Append(reqs, r)
                                      /\ p' = PDir(p, Dir(sizes, r))
        /\ UNCHANGED sizes
Spec == Init /\ [][Next]_<<sizes, reqs, p>>

N == NVars(sizes)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Schwarz == PEq(p, Partials(P0(N), sizes, Rev(reqs)))
Lowers == \A k \in 1..Len(p) : \A i \in 1..N : p[k].e[i] >= 0
Product == LET q == P0(N) i == 1 IN PEq(PDiff(PMul(p, q), i), PAdd(PMul(PDiff(p, i), q), PMul(p, PDiff(q, i))))
LapIsDivGrad == PEq(Lap(p, 1, N), Divg(Grad(p, N), 1))
F3 == << p, PScale(p, Two), P0(N) >>
CurlGrad == N = 3 => \A i \in 1..3 : PEq(Curl3(Grad(p, 3), 1)[i], <<>>)
DivCurl == N = 3 => PEq(Divg(Curl3(F3, 1), 1), <<>>)
Curl2Grad == N = 2 => PEq(Curl2(Grad(p, 2), 1)[1], <<>>)
HessSymmetric == LET u == Dirn(N) v == [j \in 1..N |-> I(j)] IN
   PEq(PSum([i \in 1..N |-> PScale(HessVec(p, N, u)[i], v[i])]), PSum([i \in 1..N |-> PScale(HessVec(p, N, v)[i], u[i])]))

EmitOK == reqs # <<>> => PrintT("SCN " \o ToJson([sizes |-> sizes, reqs |-> [k \in 1..Len(reqs) |->
              IF reqs[k].t = "comp" THEN <<"comp", reqs[k].i, reqs[k].j>>
              ELSE IF reqs[k].t = "arg" THEN <<"arg", reqs[k].i>> ELSE <<"dir">>]]))
=============================================================================
