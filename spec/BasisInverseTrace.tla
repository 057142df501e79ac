------------------------- MODULE BasisInverseTrace -------------------------
(* Recorded histories on the real basis inverses are behaviours of BasisInverse. *)
EXTENDS BasisInverse, Report, Sparse, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s, bad, done
vars == <<t, l, s, bad, done>>
Tr == Traces[t]
Ev == Tr.events[l]

Stop(text) == SayAt(Tr.id, l, "C04", text) /\ done' = TRUE /\ bad' = TRUE /\ UNCHANGED <<t, l, s>>
Go(x, checks) ==
    /\ ReportAt(Tr.id, l, checks)
    /\ s' = x /\ l' = l + 1 /\ bad' = (bad \/ Failing(checks) # <<>>) /\ UNCHANGED <<t, done>>

\* Gauss-Jordan on [B | I]
RECURSIVE Elim(_, _, _)
Elim(M, k, m) ==
    IF k > m THEN M
    ELSE LET C == {r \in k..m : ~RIsZero(M[r][k])}
         IN  IF C = {} THEN <<>>
             ELSE LET r == CHOOSE r \in C : TRUE
                      Sw == [i \in 1..m |-> IF i = k THEN M[r] ELSE IF i = r THEN M[k] ELSE M[i]]
                  IN  Elim(TLCEval(RPivot(Sw, k, k)), k + 1, m)
StateOf(cols) ==
    LET m == Len(cols)
        e == Elim(TLCEval([i \in 1..m |-> RCol(cols, i) \o RUnit(m, i)]), 1, m)
    IN  [m |-> m, B |-> cols, X |-> [i \in 1..m |-> SubSeq(e[i], m + 1, 2 * m)]]

Answer(sv, holds) == <<<<SparseOk(sv), "C04", "representation of the answer of " \o Ev.ev>>,
                       <<~SparseOk(sv) \/ holds, "C04", "answer of " \o Ev.ev>>>>

Step ==
    IF l > Len(Tr.events)
    THEN /\ LET v == IF Tr.result.st = "ok" THEN <<>> ELSE <<<<FALSE, "ANY", "panic: " \o Tr.result.msg>>>>
            IN  ReportAt(Tr.id, l, v) /\ bad' = (bad \/ v # <<>>)
         /\ done' = TRUE /\ UNCHANGED <<t, l, s>>
    ELSE
    CASE Ev.ev = "identity" -> Go(IdentityState(Ev.m), <<>>)
      [] Ev.ev = "invert" -> Go(StateOf(Ev.cols), <<>>)
      [] Ev.ev = "left" -> Go(s, Answer(Ev.out, LeftAnswer(s, Ev.v, Dense(Ev.out))))
      [] Ev.ev = "right" -> Go(s, Answer(Ev.out, RightAnswer(s, Ev.v, Dense(Ev.out))))
      [] Ev.ev = "row" -> Go(s, Answer(Ev.out, RowAnswer(s, Ev.i + 1, Dense(Ev.out))) \o <<<<Ev.m = s.m, "C04", "dimension">>>>)
      [] Ev.ev = "element" -> Go(s, <<<<ElementAnswer(s, Ev.i + 1, Ev.v, Ev.out), "C04", "answer of element">>>>)
      [] Ev.ev = "change" ->
            IF ~CanReplace(s, Ev.r + 1, Ev.v) THEN Stop("an exchange that makes the basis singular was accepted")
            ELSE Go(Replace(s, Ev.r + 1, Ev.v), Answer(Ev.out, LeftAnswer(s, Ev.v, Dense(Ev.out))))
      [] Ev.ev = "remove" ->
            LET D == {Ev.rows[k] + 1 : k \in 1..Len(Ev.rows)}
            IN  IF ~CanRemove(s, D) THEN Stop("rows were removed that the basis needs")
                ELSE Go(Remove(s, D), <<<<Ev.m = Remove(s, D).m, "C04", "dimension after removing rows">>>>)
      [] OTHER -> Stop("a possible exchange was refused")

Init == t \in 1..Len(Traces) /\ l = 1 /\ s = IdentityState(0) /\ bad = FALSE /\ done = FALSE
Finish == /\ done /\ l > 0 /\ SayDone(Tr.id, bad) /\ l' = 0 /\ UNCHANGED <<t, s, bad, done>>
Next == (~done /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars
IsInverse == Inverse(s)
=============================================================================
