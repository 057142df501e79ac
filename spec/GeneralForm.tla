---------------------------- MODULE GeneralForm ----------------------------
(***************************************************************************)
(* Linear programs as a user states them, and what it means for another    *)
(* problem to stand for one.                                               *)
(*                                                                         *)
(* A stated problem P is an LP-record (module LP) with an objective        *)
(* constant, a sense and variable names:                                   *)
(*   [n, max, fixed, cost, lo, hi, rows, names].                           *)
(* A representation Q is a standard form  A y = b, y >= 0  with cost c     *)
(* together with an affine map F from the first nv columns of y to values  *)
(* for all variables of P and a reported objective value.                  *)
(***************************************************************************)
EXTENDS LP

\* The problem that is minimised: the negation if P asks for a maximum.
Sense(P) == IF P.max THEN RI(-1) ELSE R1
MinCost(P) == RVScale(Sense(P), P.cost)
\* The value of a point as P states it, and as its minimisation form does.
Stated(P, x) == RAdd(P.fixed, RDot(P.cost, x))
Minimised(P, x) == RMul(Sense(P), Stated(P, x))

\* Verdict about P: the answer of the oracle to its minimisation form.
Answer(P) == LET S == TLCEval(Std(P)) IN MinOver(S, TLCEval(Feasible(S)), MinCost(P))
AnswerSound(P) ==
    LET S == TLCEval(Std(P))
        sc == TLCEval(StdCost(S, MinCost(P)))
    IN  CertificateOk(S, sc.c, TLCEval(Solve(S, sc.c)))
\* The optimal value as P states it (an answer "opt").
Best(P, a) == RAdd(P.fixed, RMul(Sense(P), a.val))

---------------------------------------------------------------------------
(* Named values *)
NamesOk(P, names) == /\ Len(names) = P.n
                     /\ \A j \in 1..P.n : \E k \in 1..Len(names) : names[k] = P.names[j]
ByName(P, names, x) == [j \in 1..P.n |-> x[CHOOSE k \in 1..Len(names) : names[k] = P.names[j]]]

---------------------------------------------------------------------------
(* Representations.  R = [A, b, n, c, nv, at0, unit]: at0 the values for   *)
(* y = 0 and unit[k] those for y = e_k.                                    *)
Slope(R, k) == RVSub(R.unit[k], R.at0)
\* g . F(y) = RConst + RDir . y
RDir(R, g) == [k \in 1..R.n |-> IF k <= R.nv THEN RDot(g, Slope(R, k)) ELSE R0]
RConst(R, g) == RDot(g, R.at0)
Sys(R) == [A |-> R.A, b |-> R.b, n |-> R.n]
\* min g . F(y) over the representation, F = Feasible(Sys(R))
RepMin(R, F, g) == LET a == Minimise(F, RDir(R, g)) IN IF a.st = "opt" THEN RAdd(a.val, RConst(R, g)) ELSE <<>>
RepMax(R, F, g) == LET a == RepMin(R, F, RVNeg(g)) IN IF a = <<>> THEN a ELSE RNeg(a)
AtMost(v, o) == Has(o) => v # <<>> /\ RLe(v, Val(o))
AtLeast(v, o) == Has(o) => v # <<>> /\ RLe(Val(o), v)

\* Every point of the representation is mapped to a point of P.
Sound(P, R, F) ==
    /\ \A i \in 1..Len(P.rows) : LET r == P.rows[i]
                                 IN  /\ Has(r.hi) => AtMost(RepMax(R, F, r.a), r.hi)
                                     /\ Has(r.lo) => AtLeast(RepMin(R, F, r.a), r.lo)
    /\ \A j \in 1..P.n : /\ Has(P.hi[j]) => AtMost(RepMax(R, F, RUnit(P.n, j)), P.hi[j])
                         /\ Has(P.lo[j]) => AtLeast(RepMin(R, F, RUnit(P.n, j)), P.lo[j])

\* The image of the representation reaches as far as P in direction g (both feasible).
SameReach(P, R, S, FP, F, g) ==
    LET p == MinOver(S, FP, g)
        r == RepMin(R, F, g)
    IN  IF p.st = "opt" THEN r # <<>> /\ REq(r, p.val) ELSE r = <<>>
SameSet(P, R, S, FP, F) ==
    /\ \A j \in 1..P.n : SameReach(P, R, S, FP, F, RUnit(P.n, j)) /\ SameReach(P, R, S, FP, F, RVNeg(RUnit(P.n, j)))
    /\ SameReach(P, R, S, FP, F, MinCost(P))
    /\ SameReach(P, R, S, FP, F, [j \in 1..P.n |-> RI(IF j % 2 = 0 THEN 2 ELSE -3)])
    /\ SameReach(P, R, S, FP, F, [j \in 1..P.n |-> RI(1 + ((j * j) % 4))])

\* Minimising the representation is optimising P.
SameOptimum(P, R) ==
    LET a == TLCEval(Answer(P))
        q == TLCEval(Solve(Sys(R), R.c))
    IN  a.st = q.st
---------------------------------------------------------------------------
(* Half-spaces  a . x <= b.  Two problems that consist of the same         *)
(* half-spaces (apart from those that hold everywhere) are the same; this  *)
(* needs no optimisation and so decides problems of any size.              *)
Lead(a) == LET s == {j \in 1..Len(a) : ~RIsZero(a[j])}
           IN  IF s = {} THEN R1
               ELSE LET v == a[CHOOSE j \in s : \A i \in s : j <= i] IN IF RSign(v) < 0 THEN RNeg(v) ELSE v
Half(a, b) == IF RVIsZero(a) THEN [a |-> a, b |-> RI(RSign(b))]
              ELSE LET f == TLCEval(RDiv(R1, Lead(a)))
                   IN  [a |-> TLCEval(RVScale(f, a)), b |-> RMul(f, b)]
Everywhere(h) == RVIsZero(h.a) /\ RSign(h.b) >= 0
Sides(a, lo, hi) == (IF Has(hi) THEN <<Half(a, Val(hi))>> ELSE <<>>) \o (IF Has(lo) THEN <<Half(RVNeg(a), RNeg(Val(lo)))>> ELSE <<>>)
RECURSIVE Joined(_, _)
Joined(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Joined(q, i + 1)
HalfSpaces(P) ==
    Joined([i \in 1..Len(P.rows) |-> Sides(P.rows[i].a, P.rows[i].lo, P.rows[i].hi)]
           \o [j \in 1..P.n |-> Sides(RUnit(P.n, j), P.lo[j], P.hi[j])], 1)
AllIn(G, H) == \A i \in 1..Len(G) : \/ Everywhere(G[i])
                                   \/ \E k \in 1..Len(H) : REq(G[i].b, H[k].b) /\ RVEq(G[i].a, H[k].a)
SameHalfSpaces(G, H) == AllIn(G, H) /\ AllIn(H, G)

(* The half-spaces of a representation in terms of the variables of P: possible if each column belongs to one        *)
(* variable, a variable has one column or two opposite ones, and each further column is the slack of a row or of a   *)
(* row's slack.  answers [ok, h].                                                                                    *)
RepHalfSpaces(P, R) ==
    LET slope == TLCEval([k \in 1..R.nv |-> Slope(R, k)])
        of(k) == {j \in 1..P.n : ~RIsZero(slope[k][j])}
        cols(j) == {k \in 1..R.nv : of(k) = {j}}
        plain == /\ \A k \in 1..R.nv : Cardinality(of(k)) = 1
                 /\ \A j \in 1..P.n : Cardinality(cols(j)) \in {1, 2}
        rep == TLCEval([j \in 1..P.n |-> CHOOSE k \in cols(j) : \A i \in cols(j) : k <= i])
        m == Len(R.A)
        \* row i in terms of x:  a . x + (slacks) = b
        a == TLCEval([i \in 1..m |-> [j \in 1..P.n |-> RDiv(R.A[i][rep[j]], slope[rep[j]][j])]])
        pairs == \A j \in 1..P.n : \A k \in cols(j) :
                    /\ k # rep[j] => RSign(slope[k][j]) = -RSign(slope[rep[j]][j])
                    /\ \A i \in 1..m : REq(R.A[i][k], RMul(a[i][j], slope[k][j]))
        b == TLCEval([i \in 1..m |-> RAdd(R.b[i], RDot(a[i], R.at0))])
        slacks == TLCEval([i \in 1..m |-> {k \in (R.nv + 1)..R.n : ~RIsZero(R.A[i][k])}])
        owners(k) == {i \in 1..m : slacks[i] = {k}}
        ofslack(i) == {k \in slacks[i] : Cardinality(owners(k)) = 1}
        rows == /\ \A i \in 1..m : Cardinality(slacks[i]) <= 2
                /\ \A i \in 1..m : Cardinality(slacks[i]) = 2 =>
                      /\ Cardinality(ofslack(i)) = 1
                      /\ RVIsZero(a[i])
                      /\ \A k \in slacks[i] : RSign(R.A[i][k]) > 0
                /\ \A k \in (R.nv + 1)..R.n :
                      \/ Cardinality(owners(k)) = 1
                      \/ Cardinality({i \in 1..m : k \in slacks[i]}) = 1
        only(s) == CHOOSE k \in s : TRUE
        row(i) == CASE slacks[i] = {} -> Sides(a[i], <<b[i]>>, <<b[i]>>)
                    [] Cardinality(slacks[i]) = 1 ->
                         IF RSign(R.A[i][only(slacks[i])]) > 0 THEN Sides(a[i], None, <<b[i]>>) ELSE Sides(a[i], <<b[i]>>, None)
                    [] OTHER -> \* the slack of row o is at most r
                         LET k == only(ofslack(i))
                             o == only(owners(k))
                             e == RSub(b[o], RMul(RDiv(R.b[i], R.A[i][k]), R.A[o][k]))
                         IN  IF RSign(R.A[o][k]) > 0 THEN Sides(a[o], <<e>>, None) ELSE Sides(a[o], None, <<e>>)
        sign(j) == IF Cardinality(cols(j)) = 2 THEN <<>>
                   ELSE IF RSign(slope[rep[j]][j]) > 0 THEN Sides(RUnit(P.n, j), <<R.at0[j]>>, None)
                   ELSE Sides(RUnit(P.n, j), None, <<R.at0[j]>>)
    IN  IF ~plain THEN [ok |-> FALSE]
        ELSE IF ~(pairs /\ rows) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, h |-> Joined([i \in 1..m |-> row(i)] \o [j \in 1..P.n |-> sign(j)], 1)]

=============================================================================
