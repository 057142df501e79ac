--------------------------------- MODULE LP ---------------------------------
(***************************************************************************)
(* What a linear program means.                                            *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   [n, cost, lo, hi, rows]   with   rows[i] = [a, lo, hi]                *)
(* n variables; cost a vector; lo, hi and the lo, hi of a row are either   *)
(* <<>> (absent) or <<r>>.  It denotes the set of x with                   *)
(*   lo[j] <= x[j] <= hi[j]   and   rows[i].lo <= a . x <= rows[i].hi,     *)
(* and the optimum of cost . x over it (minimisation).                     *)
(*                                                                         *)
(* The standard form is [A, b, n]: A y = b, y >= 0.  The oracle below is   *)
(* the two-phase simplex method with Bland's rule on a dense tableau; each *)
(* answer can be checked against its certificate (OracleSound).            *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

None == <<>>
Has(o) == Len(o) = 1
Val(o) == o[1]

---------------------------------------------------------------------------
(* Membership and objective, by definition *)

InInterval(v, lo, hi) == (Has(lo) => RLe(Val(lo), v)) /\ (Has(hi) => RLe(v, Val(hi)))
Satisfies(P, x) ==
    /\ Len(x) = P.n
    /\ \A j \in 1..P.n : InInterval(x[j], P.lo[j], P.hi[j])
    /\ \A i \in 1..Len(P.rows) : InInterval(RDot(P.rows[i].a, x), P.rows[i].lo, P.rows[i].hi)
Objective(P, x) == RDot(P.cost, x)

StdSatisfies(S, y) == RVNonNeg(y) /\ RVEq(RMatVec(S.A, y), S.b)

---------------------------------------------------------------------------
(* The oracle on standard form *)

\* T: m rows of n + m + 1 entries, then the cost row; B: basis
RECURSIVE Improve(_, _, _, _, _)
Improve(T, B, m, n, last) ==
    LET j == RFirstNeg(T[m + 1], n)
    IN  IF j = 0 THEN [st |-> "opt", T |-> T, B |-> B]
        ELSE LET r == RRatioRow(T, B, m, j, last)
             IN  IF r = 0 THEN [st |-> "unbounded", T |-> T, B |-> B, col |-> j]
                 ELSE Improve(TLCEval(RPivot(T, r, j)), TLCEval([B EXCEPT ![r] = j]), m, n, last)

RECURSIVE SumRows(_, _, _)
SumRows(T, i, z) == IF i > Len(T) THEN z ELSE SumRows(T, i + 1, TLCEval(RVAdd(z, T[i])))

RECURSIVE DriveOut(_, _, _, _)
DriveOut(T, B, n, i) ==
    IF i > Len(B) THEN [T |-> T, B |-> B]
    ELSE IF B[i] > n /\ \E j \in 1..n : ~RIsZero(T[i][j])
    THEN LET j == CHOOSE j \in 1..n : ~RIsZero(T[i][j])
         IN  DriveOut(TLCEval(RPivot(T, i, j)), TLCEval([B EXCEPT ![i] = j]), n, i + 1)
    ELSE DriveOut(T, B, n, i + 1)

\* Phase one.  Answers [ok, T, B, m, n] (T without cost row) or [ok |-> FALSE, y] with y a
\* Farkas multiplier: y A <= 0 and y . b > 0.
Feasible(S) ==
    LET m == Len(S.A)
        n == S.n
        sg == [i \in 1..m |-> IF RSign(S.b[i]) < 0 THEN RI(-1) ELSE R1]
        T0 == TLCEval([i \in 1..m |->
                RVScale(sg[i], S.A[i]) \o RUnit(m, i) \o <<RMul(sg[i], S.b[i])>>])
        sum == TLCEval(SumRows(T0, 1, RVZero(n + m + 1)))
        d == TLCEval([k \in 1..(n + m + 1) |-> IF k > n /\ k <= n + m THEN R0 ELSE RNeg(sum[k])])
        res == Improve(Append(T0, d), [i \in 1..m |-> n + i], m, n, n + m + 1)
        z == res.T[m + 1]
    IN  IF ~RIsZero(z[n + m + 1])
        THEN [ok |-> FALSE, y |-> [i \in 1..m |-> RMul(sg[i], RSub(R1, z[n + i]))]]
        ELSE LET out == DriveOut(SubSeq(res.T, 1, m), res.B, n, 1)
             IN  [ok |-> TRUE, T |-> out.T, B |-> out.B, m |-> m, n |-> n, sg |-> sg]

RECURSIVE PriceOut(_, _, _, _)
PriceOut(d, T, B, i) ==
    IF i > Len(B) THEN d
    ELSE PriceOut(TLCEval(RAxpy(RNeg(d[B[i]]), T[i], d)), T, B, i + 1)

TabPoint(F, T, B) ==
    [j \in 1..F.n |-> IF \E i \in 1..F.m : B[i] = j
                      THEN T[CHOOSE i \in 1..F.m : B[i] = j][F.n + F.m + 1] ELSE R0]

\* min c . y over a feasible system F (the answer of Feasible).
Minimise(F, c) ==
    LET d0 == TLCEval(PriceOut(c \o RVZero(F.m + 1), F.T, F.B, 1))
        res == Improve(Append(F.T, d0), F.B, F.m, F.n, F.n + F.m + 1)
        z == res.T[F.m + 1]
    IN  IF res.st = "unbounded"
        THEN [st |-> "unbounded", x |-> TabPoint(F, res.T, res.B),
              ray |-> [j \in 1..F.n |-> IF j = res.col THEN R1
                         ELSE IF \E i \in 1..F.m : res.B[i] = j
                         THEN RNeg(res.T[CHOOSE i \in 1..F.m : res.B[i] = j][res.col]) ELSE R0]]
        ELSE [st |-> "opt", val |-> RNeg(z[F.n + F.m + 1]), x |-> TabPoint(F, res.T, res.B),
              y |-> [i \in 1..F.m |-> RMul(F.sg[i], RNeg(z[F.n + i]))]]

\* Verdict of min c . y over the standard form S.
Solve(S, c) ==
    LET F == Feasible(S)
    IN  IF ~F.ok THEN [st |-> "infeasible", y |-> F.y] ELSE Minimise(F, c)

\* The certificate that makes an answer of Solve independent of how it was found.
CertificateOk(S, c, ans) ==
    LET m == Len(S.A) IN
    CASE ans.st = "infeasible" ->
            /\ \A k \in 1..S.n : RSign(RDot(ans.y, RCol(S.A, k))) <= 0
            /\ RSign(RDot(ans.y, S.b)) > 0
      [] ans.st = "unbounded" ->
            /\ StdSatisfies(S, ans.x)
            /\ RVNonNeg(ans.ray) /\ RVIsZero(RMatVec(S.A, ans.ray)) /\ RSign(RDot(c, ans.ray)) < 0
      [] ans.st = "opt" ->
            /\ StdSatisfies(S, ans.x) /\ REq(RDot(c, ans.x), ans.val)
            /\ \A k \in 1..S.n : RLe(RDot(ans.y, RCol(S.A, k)), c[k])
            /\ REq(RDot(ans.y, S.b), ans.val)

---------------------------------------------------------------------------
(* From a problem to its standard form *)

\* Variable j becomes x_j = off + sgn * y_p (- y_q when free).  Kinds: "lo" (lower bound
\* present), "hi" (only an upper bound) and "fr" (free).
VarKind(P, j) == IF Has(P.lo[j]) THEN "lo" ELSE IF Has(P.hi[j]) THEN "hi" ELSE "fr"

\* All interval rows: the stated ones and one for each variable with both bounds.
BoundRows(P) ==
    LET J == {j \in 1..P.n : Has(P.lo[j]) /\ Has(P.hi[j])}
        RECURSIVE Sq(_)
        Sq(S) == IF S = {} THEN <<>>
                 ELSE LET j == CHOOSE j \in S : \A k \in S : j <= k
                      IN  <<[a |-> RUnit(P.n, j), lo |-> None, hi |-> P.hi[j]]>> \o Sq(S \ {j})
    IN  Sq(J)

\* elementwise product, and the negated entries of the free variables in order
RVMulSeq(u, v) == [i \in 1..Len(u) |-> RMul(u[i], v[i])]
FreePart(a, free, n) ==
    LET js == SelectSeq([j \in 1..n |-> j], LAMBDA j : j \in free)
    IN  [k \in 1..Len(js) |-> RNeg(a[js[k]])]

\* The columns: for each variable one or two, in order.  map[j] = [off, F] with
\* x_j = off + F . y over all columns of the standard form.
Std(P) ==
    LET rows == TLCEval(P.rows \o BoundRows(P))
        m0 == Len(rows)
        off == TLCEval([j \in 1..P.n |-> CASE VarKind(P, j) = "lo" -> Val(P.lo[j])
                                   [] VarKind(P, j) = "hi" -> Val(P.hi[j])
                                   [] OTHER -> R0])
        sgn == TLCEval([j \in 1..P.n |-> IF VarKind(P, j) = "hi" THEN RI(-1) ELSE R1])
        free == {j \in 1..P.n : VarKind(P, j) = "fr"}
        nf == Cardinality(free)
        fpos(j) == P.n + Cardinality({k \in free : k < j}) + 1
        \* rows that say something
        act == SelectSeq([i \in 1..m0 |-> i], LAMBDA i : Has(rows[i].lo) \/ Has(rows[i].hi))
        isEq(i) == Has(rows[i].lo) /\ Has(rows[i].hi) /\ REq(Val(rows[i].lo), Val(rows[i].hi))
        isRange(i) == Has(rows[i].lo) /\ Has(rows[i].hi) /\ ~isEq(i)
        nslack == Cardinality({k \in 1..Len(act) : ~isEq(act[k])})
        nrange == Cardinality({k \in 1..Len(act) : isRange(act[k])})
        n == P.n + nf + nslack + nrange
        spos(k) == P.n + nf + Cardinality({q \in 1..(k - 1) : ~isEq(act[q])}) + 1
        tpos(k) == P.n + nf + nslack + Cardinality({q \in 1..(k - 1) : isRange(act[q])}) + 1
        structural(a) == TLCEval(RVMulSeq(sgn, a) \o FreePart(a, free, P.n))
        rowOf(k) ==
            LET i == act[k]
                r == rows[i]
                base == RDot(r.a, off)
                str == structural(r.a)
                slack == IF isEq(i) THEN RVZero(nslack + nrange)
                         ELSE RVScale(IF Has(r.hi) THEN R1 ELSE RI(-1),
                                      RUnit(nslack + nrange, spos(k) - P.n - nf))
            IN  [a |-> TLCEval(str \o slack),
                 b |-> RSub(IF Has(r.hi) THEN Val(r.hi) ELSE Val(r.lo), base)]
        \* s + t = hi - lo for a range row with slack s
        rangeRow(k) ==
            LET r == rows[act[k]]
            IN  [a |-> TLCEval(RVZero(P.n + nf) \o RVAdd(RUnit(nslack + nrange, spos(k) - P.n - nf),
                                           RUnit(nslack + nrange, tpos(k) - P.n - nf))),
                 b |-> RSub(Val(r.hi), Val(r.lo))]
        ranged == SelectSeq([k \in 1..Len(act) |-> k], LAMBDA k : isRange(act[k]))
        all == TLCEval([k \in 1..Len(act) |-> TLCEval(rowOf(k))] \o [k \in 1..Len(ranged) |-> TLCEval(rangeRow(ranged[k]))])
    IN  [n |-> n,
         A |-> TLCEval([i \in 1..Len(all) |-> all[i].a]),
         b |-> TLCEval([i \in 1..Len(all) |-> all[i].b]),
         off |-> off, sgn |-> sgn, free |-> free, pn |-> P.n, pad |-> nslack + nrange]

\* objective g . x over problem P as [c, k]: g . x = k + c . y
StdCost(S, g) == [c |-> TLCEval(RVMulSeq(S.sgn, g) \o FreePart(g, S.free, S.pn) \o RVZero(S.pad)),
                  k |-> RDot(g, S.off)]

\* the point of P that corresponds to y
StdBack(S, y) ==
    [j \in 1..S.pn |->
        LET base == RAdd(S.off[j], RMul(S.sgn[j], y[j]))
        IN  IF j \in S.free
            THEN RSub(base, y[S.pn + Cardinality({k \in S.free : k < j}) + 1]) ELSE base]

\* Answer for  min g . x  over P, given the feasibility answer for its standard form
Plus(ans, k) == IF ans.st = "opt" THEN [ans EXCEPT !.val = RAdd(ans.val, k)] ELSE ans
MinOver(S, F, g) ==
    IF ~F.ok THEN [st |-> "infeasible", y |-> F.y]
    ELSE LET sc == StdCost(S, g) IN Plus(Minimise(F, sc.c), sc.k)
\* Two answers say the same (verdict, and optimal value if there is one).
SameAnswer(p, q) == p.st = q.st /\ (p.st = "opt" => REq(p.val, q.val))
=============================================================================
