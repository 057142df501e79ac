---------------------------- MODULE AlgebraTrace ----------------------------
(* Histories of the real vectors and matrices as behaviours of Algebra. *)
EXTENDS Algebra, Sparse, Report, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Tr == Traces[t]
Ev == Tr.events
IsMat == Tr.kind = "mat"

Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = FALSE
        /\ s = IF IsMat THEN Mat(Tr.nr, Tr.nc, Tr.start) ELSE Tr.start

\* observation of a sparse vector: {len, i, v}; of a dense one: the values
VecSees(e, v) ==
    LET form == IF Tr.kind = "sparse" THEN SparseOk(e.sv) ELSE TRUE
        seen == IF Tr.kind = "sparse" THEN (IF form THEN Dense(e.sv) ELSE <<>>) ELSE e.sv
    IN  << <<form, "C18", e.op \o ": sorted indices, no explicit zeros">>,
           <<~form \/ RVEq(seen, v), "C18", e.op \o ": values">>,
           <<e.len = Len(v), "C18", e.op \o ": length">>,
           <<e.empty = (Len(v) = 0), "C18", e.op \o ": is_empty">>,
           <<Tr.kind # "sparse" \/ e.size = Cardinality({k \in 1..Len(v) : ~RIsZero(v[k])}), "C18", e.op \o ": size">>,
           <<Len(e.get) = Len(v) /\ \A k \in 1..Len(v) :
                IF Tr.kind = "sparse" /\ RIsZero(v[k]) THEN e.get[k] = <<>> ELSE Len(e.get[k]) = 1 /\ REq(e.get[k][1], v[k]),
             "C18", e.op \o ": get">>,
           <<IF Tr.kind = "sparse" THEN e.shown.i = e.sv.i /\ Len(e.shown.v) = Len(e.sv.v) /\ RVEq(e.shown.v, e.sv.v) ELSE Len(e.shown) = Len(v) /\ RVEq(e.shown, v),
             "C18", e.op \o ": the text shown">>,
           <<Tr.kind # "sparse" \/ (Len(e.entry) = Len(v) /\ RVEq(e.entry, v)), "C18", e.op \o ": the text of entries">> >>
MatSees(e, M) ==
    LET byRow == e.ori = "row"
        nmaj == IF byRow THEN M.nr ELSE M.nc
        nmin == IF byRow THEN M.nc ELSE M.nr
        major(k) == IF byRow THEN M.a[k] ELSE [i \in 1..M.nr |-> M.a[i][k]]
        dims == e.nr = M.nr /\ e.nc = M.nc /\ Len(e.major) = nmaj
        form == \A k \in 1..Len(e.major) : SparseOk(e.major[k])
        nonzero == Cardinality({p \in (1..M.nr) \X (1..M.nc) : ~RIsZero(M.a[p[1]][p[2]])})
    IN  << <<dims, "C18", e.op \o ": dimensions">>,
           <<form, "C18", e.op \o ": sorted indices, no explicit zeros">>,
           <<~dims \/ ~form \/ \A k \in 1..nmaj : e.major[k].len = nmin /\ RVEq(Dense(e.major[k]), major(k)), "C18", e.op \o ": entries">>,
           <<e.single = e.major, "C18", e.op \o ": iteration over all and over one">>,
           <<e.size = nonzero, "C18", e.op \o ": size">> >>
Step ==
    /\ l < Len(Ev)
    /\ LET e == Ev[l + 1]
           n == TLCEval(IF IsMat THEN MatAfter(s, e) ELSE VecAfter(s, e))
           c == TLCEval(IF IsMat THEN MatSees(e, n)
                        ELSE VecSees(e, n) \o << <<RVEq(e.ans, VecAnswer(s, e)), "C18", e.op \o ": answer">> >>)
       IN  /\ ReportAt(Tr.id, l + 1, c)
           /\ bad' = (bad \/ Failing(c) # <<>>)
           /\ s' = n
    /\ l' = l + 1 /\ UNCHANGED t
Finish ==
    /\ l = Len(Ev)
    /\ LET ok == Tr.result.st = "ok"
       IN  (IF ok THEN TRUE ELSE SayAt(Tr.id, l + 1, "ANY", "panic: " \o Tr.result.msg)) /\ SayDone(Tr.id, bad \/ ~ok)
    /\ l' = l + 1 /\ UNCHANGED <<t, s, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
