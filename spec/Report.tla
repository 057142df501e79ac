------------------------------- MODULE Report -------------------------------
(* How trace specifications report: one line for every check that fails. *)
EXTENDS Sequences, Integers, TLC

SayAt(id, l, tag, text) == PrintT("REJECT " \o ToString(id) \o " " \o ToString(l) \o " " \o tag \o " " \o text)
\* checks: a sequence of <<holds, tag, text>>
Failing(checks) == SelectSeq(checks, LAMBDA c : ~c[1])
ReportAt(id, l, checks) == LET f == Failing(checks) IN \A i \in 1..Len(f) : SayAt(id, l, f[i][2], f[i][3])
SayDone(id, bad) == PrintT("DONE " \o ToString(id) \o (IF bad THEN " 1" ELSE " 0"))
Inc(q) == [i \in 1..Len(q) |-> q[i] + 1]
ToSet(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
