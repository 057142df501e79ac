----------------------------- MODULE MatrixData -----------------------------
(***************************************************************************)
(* What matrix providers present: the documented layout of matrix data     *)
(* (equality, range, <= and >= rows, bounds of variables, bounds of range  *)
(* slacks), and providers with constraint rows removed one after another.  *)
(*                                                                         *)
(* A provider is [m, n, ncons, A, rhs, cost, up, pivots]; up[j] is <<>> or *)
(* <<row>> with rows counted from 0; pivots a set of <<row, column>>.      *)
(***************************************************************************)
EXTENDS LP, Sparse, Report, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, st, gone, k, bad
vars == <<t, st, gone, k, bad>>
Tr == Traces[t]

---------------------------------------------------------------------------
\* Matrix data from the stated rows, bounds and counts
Layout(D) ==
    LET ne == D.counts[1]
        nr == D.counts[2]
        nu == D.counts[3]
        nl == D.counts[4]
        m0 == ne + nr + nu + nl
        ub == SelectSeq([j \in 1..D.n |-> j], LAMBDA j : Has(D.upper[j]))
        mb == Len(ub)
        m == m0 + mb + nr
        n == D.n + nr + nu + nl + mb + nr
        \* the slack columns, each as the rows (from 1) and sign it has
        slacks == [q \in 1..nr |-> [rows |-> {ne + q, m0 + mb + q}, s |-> 1]]
               \o [q \in 1..nu |-> [rows |-> {ne + nr + q}, s |-> 1]]
               \o [q \in 1..nl |-> [rows |-> {ne + nr + nu + q}, s |-> -1]]
               \o [q \in 1..(mb + nr) |-> [rows |-> {m0 + q}, s |-> 1]]
        entry(i, j) ==
            IF j > D.n THEN IF i \in slacks[j - D.n].rows THEN RI(slacks[j - D.n].s) ELSE R0
            ELSE IF i <= m0 THEN D.rows[i][j]
            ELSE IF i <= m0 + mb /\ ub[i - m0] = j THEN R1 ELSE R0
    IN  [m |-> m, n |-> n, ncons |-> m0,
         A |-> TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> entry(i, j)])]),
         rhs |-> TLCEval(D.b \o [q \in 1..mb |-> Val(D.upper[ub[q]])] \o D.ranges),
         cost |-> TLCEval([j \in 1..n |-> IF j <= D.n THEN D.cost[j] ELSE R0]),
         up |-> TLCEval([j \in 1..n |->
                    IF j <= D.n /\ Has(D.upper[j]) THEN <<m0 + (CHOOSE q \in 1..mb : ub[q] = j) - 1>>
                    ELSE IF j > D.n /\ j <= D.n + nr THEN <<m0 + mb + (j - D.n) - 1>> ELSE <<>>]),
         \* <= slacks, slacks of variable bounds, slacks of slack bounds
         pivots |-> {<<ne + nr + q - 1, D.n + nr + q - 1>> : q \in 1..nu}
                    \cup {<<m0 + q - 1, D.n + nr + nu + nl + q - 1>> : q \in 1..(mb + nr)}]

Given(S) ==
    [m |-> S.m, n |-> S.n, ncons |-> S.m, A |-> S.A, rhs |-> S.b, cost |-> S.c,
     up |-> [j \in 1..S.n |-> <<>>], pivots |-> ToSet(S.pivots)]

\* Row i (from 0) after the rows in R are gone; the rows that are left, in order
Shift(i, R) == i - Cardinality({r \in R : r < i})
Left(m, R) == SelectSeq([i \in 1..m |-> i - 1], LAMBDA i : i \notin R)
Sorted(R) == LET top == IF R = {} THEN 0 ELSE CHOOSE x \in R : \A y \in R : y <= x
             IN  SelectSeq([i \in 1..(top + 1) |-> i - 1], LAMBDA i : i \in R)
Without(L, R) ==
    LET keep == Left(L.m, R)
    IN  [m |-> Len(keep), n |-> L.n, ncons |-> L.ncons - Cardinality({r \in R : r < L.ncons}),
         A |-> TLCEval([i \in 1..Len(keep) |-> L.A[keep[i] + 1]]),
         rhs |-> TLCEval([i \in 1..Len(keep) |-> L.rhs[keep[i] + 1]]),
         cost |-> L.cost,
         up |-> [j \in 1..L.n |-> IF Has(L.up[j]) THEN <<Shift(Val(L.up[j]), R)>> ELSE <<>>],
         pivots |-> {<<Shift(p[1], R), p[2]>> : p \in {p \in L.pivots : p[1] \notin R}}]

---------------------------------------------------------------------------
\* What was observed, against what it should be
Same(o, L, tag, what) ==
    LET dims == o.nr_rows = L.m /\ o.nr_columns = L.n
        col(j) == RCol(L.A, j)
    IN  << <<dims, tag, what \o ": numbers of rows and columns">>,
           <<o.nr_constraints = L.ncons /\ o.nr_bounds = L.m - L.ncons, tag, what \o ": numbers of constraints and bounds">> >>
        \o (IF ~dims THEN <<>> ELSE <<
           <<\A j \in 1..L.n : SparseOk(o.cols[j]), tag, what \o ": form of a column">>,
           <<\A j \in 1..L.n : SparseOk(o.cols[j]) => RVEq(Dense(o.cols[j]), IF L.m = 0 THEN <<>> ELSE col(j)), tag, what \o ": entries of a column">>,
           <<\A j \in 1..L.n : o.into_cols[j] = o.cols[j], tag, what \o ": columns by value and by reference">>,
           <<\A j \in 1..L.n : Len(o.texts[j]) = L.m /\ (L.m > 0 => RVEq(o.texts[j], col(j))), tag, what \o ": entries of a column as shown">>,
           <<\A j \in 1..L.n : \A x \in 1..4 : o.counted[j][x] = Len(o.cols[j].i), tag, what \o ": number of entries counted">>,
           <<Len(o.rhs) = L.m /\ RVEq(o.rhs, L.rhs), tag, what \o ": right hand side">>,
           <<RVEq(o.costs, L.cost), tag, what \o ": costs">>,
           <<\A j \in 1..L.n : o.low[j] = <<>>, tag, what \o ": lower bound row">>,
           <<\A j \in 1..L.n : o.up[j] = L.up[j], tag, what \o ": upper bound row">> >>)
Pivots(o, L, tag, what) ==
    << <<Len(o.pivots) = Cardinality(L.pivots) /\ ToSet(o.pivots) = L.pivots, tag, what \o ": offered initial pivots">>,
       <<o.ninit = Cardinality(L.pivots), tag, what \o ": number of offered initial pivots">> >>
\* unit columns, and columns stored apart from the provider
Columns(o, L, tag) ==
    << <<Len(o.units) = L.m /\ \A i \in 1..L.m : \A x \in 1..5 : RVEq(o.units[i][x], RUnit(L.m, i)), tag, "unit columns">>,
       <<Len(o.explicit) = L.n /\ \A j \in 1..L.n : \A x \in 1..4 : L.m > 0 => RVEq(o.explicit[j][x], RCol(L.A, j)), tag, "explicit columns">> >>
Recon(o, x, n, tag, what) ==
    << <<SparseOk(o.recon) /\ o.recon.len = n /\ RVEq(Dense(o.recon), SubSeq(x, 1, n)), tag, what \o ": reconstructed solution">> >>
Removed(under, filtered, deleted, m, R, what) ==
    << <<under = Left(m, R), "C11", what \o ": underlying rows">>,
       <<filtered = Sorted(R), "C11", what \o ": list of removed rows">>,
       <<deleted = Cardinality(R), "C11", what \o ": number of removed rows">> >>

Whole == IF Tr.kind = "md" THEN Layout(Tr) ELSE Given(Tr)

Init == t \in 1..Len(Traces) /\ st = "start" /\ gone = {} /\ k = 0 /\ bad = FALSE

Panicked == /\ st = "start" /\ Tr.result.st = "panic"
            /\ SayAt(Tr.id, 1, "ANY", "panic: " \o Tr.result.msg)
            /\ st' = "end" /\ bad' = TRUE /\ UNCHANGED <<t, gone, k>>

\* matrix data, and the provider with some equality rows removed
MakeData ==
    /\ st = "start" /\ Tr.kind = "md" /\ Tr.result.st = "ok"
    /\ LET L == TLCEval(Layout(Tr))
           r == Tr.result
           R == ToSet(Tr.rem)
           c == TLCEval(Same(r.obs, L, "C10", "matrix data") \o Pivots(r.obs, L, "C10", "matrix data")
                        \o Recon(r.obs, Tr.x, Tr.n, "C10", "matrix data") \o Columns(r.obs, L, "C10")
                        \o Same(r.fobs, Without(L, R), "C11", "filtered") \o Pivots(r.fobs, Without(L, R), "C11", "filtered")
                        \o Recon(r.fobs, Tr.x, Tr.n, "C11", "filtered")
                        \o Removed(r.under, r.filtered, r.deleted, L.m, R, "filtered"))
       IN  ReportAt(Tr.id, 1, c) /\ bad' = (Failing(c) # <<>>)
    /\ gone' = ToSet(Tr.rem) /\ st' = "end" /\ UNCHANGED <<t, k>>

\* an explicit provider: rows removed at once, then one after another
MakeFiltered ==
    /\ st = "start" /\ Tr.kind = "rows" /\ Tr.result.st = "ok"
    /\ LET L == TLCEval(Given(Tr))
           R == ToSet(Tr.rem)
           c == TLCEval(Same(Tr.result.obs, Without(L, R), "C11", "filtered")
                        \o << <<Tr.result.filtered = Sorted(R), "C11", "filtered: list of removed rows">> >>)
       IN  ReportAt(Tr.id, 1, c) /\ bad' = (Failing(c) # <<>>)
    /\ gone' = ToSet(Tr.rem) /\ st' = "filtered" /\ UNCHANGED <<t, k>>
Delete ==
    /\ st = "filtered" /\ k < Len(Tr.del)
    /\ gone' = gone \cup {Left(Tr.m, gone)[Tr.del[k + 1] + 1]}
    /\ k' = k + 1
    /\ LET o == Tr.result.steps[k + 1]
           c == TLCEval(Removed(o.under, o.filtered, o.deleted, Tr.m, gone', "row deleted"))
       IN  ReportAt(Tr.id, 2 + k, c) /\ bad' = (bad \/ Failing(c) # <<>>)
    /\ UNCHANGED <<t, st>>
Look ==
    /\ st = "filtered" /\ k = Len(Tr.del)
    /\ LET L == TLCEval(Without(Given(Tr), gone))
           c == TLCEval(Same(Tr.result.fobs, L, "C11", "rows deleted") \o Pivots(Tr.result.fobs, L, "C11", "rows deleted")
                        \o << <<Tr.result.under = Left(Tr.m, gone), "C11", "rows deleted: underlying rows">> >>)
       IN  ReportAt(Tr.id, 2 + k, c) /\ bad' = (bad \/ Failing(c) # <<>>)
    /\ st' = "end" /\ UNCHANGED <<t, gone, k>>

Finish == st = "end" /\ SayDone(Tr.id, bad) /\ st' = "done" /\ UNCHANGED <<t, gone, k, bad>>
Next == Panicked \/ MakeData \/ MakeFiltered \/ Delete \/ Look \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
