---------------------------- MODULE BasisInverse ----------------------------
(***************************************************************************)
(* A basis and its inverse under exchanges of one column.                  *)
(*                                                                         *)
(* The state is a nonsingular square matrix B, a sequence of columns, with *)
(* its inverse X (a sequence of rows).  The one action replaces a column;  *)
(* it is enabled when the matrix stays nonsingular.  Everything a solver   *)
(* asks of a basis inverse is a query with one right answer, stated here   *)
(* by what the answer must satisfy.                                        *)
(***************************************************************************)
EXTENDS Rat, TLC

Cols(B, m) == [i \in 1..m |-> [k \in 1..m |-> B[k][i]]]       \* rows of B
MulCols(B, w, m) == RMatVec(Cols(B, m), w)                      \* B w
IdentityState(m) == [m |-> m, B |-> RIdentity(m), X |-> RIdentity(m)]

\* B^-1 v by the stored inverse
Coordinates(s, v) == RMatVec(s.X, v)

CanReplace(s, r, v) == r \in 1..s.m /\ Len(v) = s.m /\ ~RIsZero(Coordinates(s, v)[r])
Replace(s, r, v) ==
    LET w == TLCEval(Coordinates(s, v))
        p == TLCEval(RVScale(RDiv(R1, w[r]), s.X[r]))
    IN  [m |-> s.m, B |-> TLCEval([s.B EXCEPT ![r] = v]),
         X |-> TLCEval([i \in 1..s.m |-> IF i = r THEN p ELSE RAxpy(RNeg(w[i]), p, s.X[i])])]

\* Rows and positions D leave the basis.  Enabled when the columns at these positions are zero
\* outside of these rows, as columns of artificial variables are: what remains is nonsingular, and
\* its inverse is what remains of the inverse.
CanRemove(s, D) == D \subseteq 1..s.m /\ D # 1..s.m /\ \A d \in D : \A i \in (1..s.m) \ D : RIsZero(s.B[d][i])
Remove(s, D) ==
    LET keep == SelectSeq([i \in 1..s.m |-> i], LAMBDA i : i \notin D)
        n == Len(keep)
        Minor(M) == TLCEval([a \in 1..n |-> [b \in 1..n |-> M[keep[a]][keep[b]]]])
    IN  [m |-> n, B |-> Minor(s.B), X |-> Minor(s.X)]

\* invariant: X really is the inverse of B
Inverse(s) == \A i \in 1..s.m : \A k \in 1..s.m : REq(RDot(s.X[i], s.B[k]), IF i = k THEN R1 ELSE R0)

---------------------------------------------------------------------------
(* The queries *)
LeftAnswer(s, v, w) == Len(w) = s.m /\ RVEq(MulCols(s.B, w, s.m), v)                       \* w = B^-1 v
RightAnswer(s, v, w) == Len(w) = s.m /\ \A k \in 1..s.m : REq(RDot(w, s.B[k]), v[k])       \* w = v B^-1
RowAnswer(s, i, w) == Len(w) = s.m /\ \A k \in 1..s.m : REq(RDot(w, s.B[k]), IF k = i THEN R1 ELSE R0)
ElementAnswer(s, i, v, o) ==
    LET x == Coordinates(s, v)[i] IN IF o = <<>> THEN RIsZero(x) ELSE REq(o[1], x)
=============================================================================
