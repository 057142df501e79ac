------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* The solver's answers against the meaning of the problems (LP).          *)
(* A case is asked and then answered; the only specified answer is the one *)
(* the problem's meaning gives.  `std` cases state A x = b, x >= 0;        *)
(* `prob` cases state rows and bounds.                                     *)
(***************************************************************************)
EXTENDS LP, Report, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, st
Tr == Traces[t]

IsProb == Tr.kind = "prob"
System == IF IsProb THEN Std(Tr.P) ELSE [A |-> Tr.A, b |-> Tr.b, n |-> Tr.n]
Cost(S) == IF IsProb THEN StdCost(S, Tr.P.cost) ELSE [c |-> Tr.c, k |-> R0]

Judge ==
    LET S == TLCEval(System)
        c == TLCEval(Cost(S))
        a == TLCEval(Solve(S, c.c))
        r == Tr.result
        n == IF IsProb THEN Tr.P.n ELSE Tr.n
        g == IF IsProb THEN Tr.P.cost ELSE Tr.c
    IN  IF ~CertificateOk(S, c.c, a) THEN <<<<PrintT("SPECERROR " \o ToString(Tr.id)), "ANY", "">>>>
        ELSE IF r.st = "panic" THEN <<<<FALSE, "ANY", "panic: " \o r.msg>>>>
        ELSE IF r.st = "cap" THEN <<<<FALSE, "C17", "too many basis changes">>, <<FALSE, "C01", "no answer">>>>
        ELSE IF r.st # a.st THEN <<<<FALSE, "C01", "answered " \o r.st \o " but the problem is " \o a.st>>>>
        ELSE IF r.st # "opt" THEN <<>>
        ELSE IF Len(r.x) # n THEN <<<<FALSE, "C01", "number of values in the solution">>>>
        ELSE << <<IF IsProb THEN Satisfies(Tr.P, r.x) ELSE StdSatisfies(S, r.x), "C01", "solution violates a row or bound">>,
                <<REq(RDot(g, r.x), RAdd(a.val, c.k)), "C01", "solution is not optimal">> >>

Init == t \in 1..Len(Traces) /\ st = "asked"
Answer == /\ st = "asked"
          /\ LET v == TLCEval(Judge) IN ReportAt(Tr.id, 1, v) /\ st' = IF Failing(v) = <<>> THEN "answered" ELSE "rejected"
          /\ UNCHANGED t
Finish == /\ st \in {"answered", "rejected"} /\ SayDone(Tr.id, st = "rejected") /\ st' = "done" /\ UNCHANGED t
Next == Answer \/ Finish
Spec == Init /\ [][Next]_<<t, st>>
=============================================================================
