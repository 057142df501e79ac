-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers and vectors of them.                             *)
(*                                                                         *)
(* A rational is a pair <<n, d>> in lowest terms with d > 0.  These are    *)
(* the defining equations; while checking, TLC replaces them by the Java   *)
(* class of the same name (java/Rat.java), which computes the same         *)
(* functions with unbounded integers: a component that does not fit in 31  *)
(* bits is then a decimal string.  RatSelfTest.tla compares the two.       *)
(* Values must be compared with REq / RVEq, never with =.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n

\* n / d in canonical form
RFrac(n, d) ==
    LET g == GCD(AbsI(n), AbsI(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<s * (n \div g), s * (d \div g)>>

RI(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>

RAdd(a, b) == RFrac(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a)    == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == RFrac(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RFrac(a[1] * b[2], a[2] * b[1])
\* -1, 0 or 1
RCmp(a, b) == LET l == a[1] * b[2]  r == b[1] * a[2]
              IN  IF l < r THEN -1 ELSE IF l = r THEN 0 ELSE 1
RSign(a) == RCmp(a, R0)
REq(a, b) == RCmp(a, b) = 0
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
RIsZero(a) == RSign(a) = 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
\* is it an integer value?
RIsInt(a) == a[2] = 1

---------------------------------------------------------------------------
(* Vectors: sequences of rationals *)

RVEq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : REq(u[i], v[i])
RVAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
RVSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
RVScale(a, u) == [i \in 1..Len(u) |-> RMul(a, u[i])]
\* v + a u
RAxpy(a, u, v) == [i \in 1..Len(u) |-> RAdd(v[i], RMul(a, u[i]))]
RVNeg(u) == [i \in 1..Len(u) |-> RNeg(u[i])]
RVZero(n) == [i \in 1..n |-> R0]
RUnit(n, k) == [i \in 1..n |-> IF i = k THEN R1 ELSE R0]
RVIsZero(u) == \A i \in 1..Len(u) : RIsZero(u[i])
RVNonNeg(u) == \A i \in 1..Len(u) : RSign(u[i]) >= 0

RECURSIVE RDotFrom(_, _, _)
RDotFrom(u, v, i) == IF i > Len(u) THEN R0
                     ELSE RAdd(RMul(u[i], v[i]), RDotFrom(u, v, i + 1))
RDot(u, v) == RDotFrom(u, v, 1)
RNorm2(u) == RDot(u, u)

\* Matrices are sequences of rows.
RMatVec(M, v) == [i \in 1..Len(M) |-> RDot(M[i], v)]
RCol(M, j) == [i \in 1..Len(M) |-> M[i][j]]
\* row vector times matrix (with n columns)
RVecMat(u, M, n) == [j \in 1..n |-> RDot(u, RCol(M, j))]
RMatMul(M, N, n) == [i \in 1..Len(M) |-> RVecMat(M[i], N, n)]
RIdentity(n) == [i \in 1..n |-> RUnit(n, i)]
RMatEq(M, N) == Len(M) = Len(N) /\ \A i \in 1..Len(M) : RVEq(M[i], N[i])
\* The Gauss-Jordan step on entry (r, c): row r is divided by M[r][c] and column c is
\* cleared in all other rows.
RPivot(M, r, c) ==
    LET p == RVScale(RDiv(R1, M[r][c]), M[r])
    IN  [i \in 1..Len(M) |-> IF i = r THEN p ELSE RAxpy(RNeg(M[i][c]), p, M[i])]

\* The first index among 1..n with a negative entry, 0 if there is none.
RFirstNeg(v, n) ==
    IF \E j \in 1..n : RSign(v[j]) < 0
    THEN CHOOSE j \in 1..n : RSign(v[j]) < 0 /\ \A k \in 1..(j - 1) : RSign(v[k]) >= 0
    ELSE 0
\* The row among the first m of T with T[i][j] > 0 that minimises T[i][last] / T[i][j]; ties
\* are broken by the smallest B[i].  0 if no entry is positive.
RRatioRow(T, B, m, j, last) ==
    LET P == {i \in 1..m : RSign(T[i][j]) > 0}
        ratio(i) == RDiv(T[i][last], T[i][j])
    IN  IF P = {} THEN 0
        ELSE CHOOSE i \in P : \A k \in P :
                LET c == RCmp(ratio(i), ratio(k)) IN c < 0 \/ (c = 0 /\ B[i] <= B[k])
=============================================================================
