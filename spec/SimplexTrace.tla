---------------------------- MODULE SimplexTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the real solver are behaviours of Simplex.             *)
(*                                                                         *)
(* Each line of the trace file is a problem with the events of one run.    *)
(* The state machine is driven along the events: `s` is the specified      *)
(* state, and every event must be an enabled action of Simplex and leave   *)
(* the implementation in a state that projects to `s`.  What does not fit  *)
(* is printed with the property it concerns; the run goes on when the      *)
(* specified successor still exists.                                       *)
(***************************************************************************)
EXTENDS Simplex, Report, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

\* mem: what the cyclic pivot rule remembers: the last column it chose, or 0;
\* stall: number of steps in a row that did not improve the objective
VARIABLES t, l, s, bad, done, mem, stall
vars == <<t, l, s, bad, done, mem, stall>>

Tr == Traces[t]
P == [A |-> Tr.A, b |-> Tr.b, c |-> Tr.c, n |-> Tr.n]
Say(tag, text) == SayAt(Tr.id, l, tag, text)
Report(checks) == ReportAt(Tr.id, l, checks)

---------------------------------------------------------------------------
(* The implementation's state against the specified state x *)

SysOf(x) == SystemRows(P, x.kept, IF x.ph = 1 THEN Inc(Tr.events[1].art) ELSE <<>>)
CostOf(x) == IF x.ph = 1 THEN PhaseOneCosts(P, Inc(Tr.events[1].art)) ELSE P.c
BinvRows(e) == [i \in 1..Len(e.binv) |-> RCol(e.binv, i)]
Observed(e, x) ==
    LET m == Rows(x)
        sized == Len(e.basis) = m /\ Len(e.b) = m /\ Len(e.mpi) = m /\ Len(e.binv) = m
                 /\ \A k \in 1..Len(e.binv) : Len(e.binv[k]) = m
    IN  IF ~sized THEN <<<<FALSE, "C05", "number of rows">>>>
        ELSE LET sys == TLCEval(SysOf(x))
             IN <<
            <<\A i \in 1..m : e.basis[i] + 1 = x.B[i], "C05", "basis by row">>,
            <<RVEq(e.b, [i \in 1..m |-> Rhs(x, i)]), "C05", "constraint values">>,
            <<REq(e.obj, ObjValue(x)), "C05", "objective value">>,
            <<m = 0 \/ RMatEq(RMatMul(BinvRows(e), sys, x.w + 1), SubSeq(x.T, 1, m)), "C05", "basis inverse">>,
            <<RVEq(IF m = 0 THEN CostOf(x) ELSE RVAdd(CostOf(x), RVecMat(e.mpi, sys, x.w)), SubSeq(x.T[m + 1], 1, x.w)),
              "C05", "relative costs">> >>

---------------------------------------------------------------------------
(* Pivot rules *)

\* 1 + |B^-1 a_j|^2
Weight(x, j) == RAdd(R1, RNorm2([i \in 1..Rows(x) |-> x.T[i][j]]))
Steepness(x, j) == RDiv(RMul(RelCost(x, j), RelCost(x, j)), Weight(x, j))
First(S) == CHOOSE j \in S : \A k \in S : j <= k
After(S, last) == LET L == {j \in S : j > last} IN IF L # {} THEN First(L) ELSE First(S)
RuleAllows(x, rule, last, j) ==
    LET S == Improving(x) IN
    j \in S /\
    CASE rule = "first" -> j = First(S)
      \* (having found none, it may start anew from wherever it likes)
      [] rule = "memory" -> last = -1 \/ j = After(S, last)
      [] rule = "variable" -> \A k \in S : RLe(RelCost(x, j), RelCost(x, k))
      [] rule = "objective" -> LET v == TLCEval(Steepness(x, j)) IN \A k \in S : RLe(Steepness(x, k), v)
\* A run with a given rule follows it; after a step without progress Bland's rule may be used.
Chosen(x, j) == Tr.path # "basis" \/ RuleAllows(x, Tr.rule, mem, j) \/ (stall > 0 /\ RuleAllows(x, "first", 0, j))

---------------------------------------------------------------------------
(* Events *)

\* A problem whose only fault is that the specification has no such state stops the run.
Stop(tag, text) == Say(tag, text) /\ done' = TRUE /\ bad' = TRUE /\ UNCHANGED <<t, l, s, mem, stall>>
At(x, checks) ==
    /\ Report(checks)
    /\ s' = x /\ l' = l + 1
    /\ bad' = (bad \/ Failing(checks) # <<>>)
    /\ UNCHANGED <<t, done>>
Go(x, checks) == At(x, checks) /\ mem' = 0 /\ stall' = 0

Ev == Tr.events[l]

DoInit ==
    LET x == TLCEval(StateAt(P, IF Ev.kind = "basis" THEN 2 ELSE 1, Inc(Ev.art), AllRows(P), Inc(Ev.basis)))
    IN  IF ~x.ok THEN Stop("C03", "the initial basis is not a basis")
        ELSE Go(x, <<<<BasicFeasible(x), "C03", "the initial basis is not feasible">>>> \o Observed(Ev, x))

\* In a run of the solver every step is one of the method; a history that the harness makes up
\* ("tab") may use any exchange that keeps the basic values nonnegative.
Free == Tr.kind = "tab"
DoPivot ==
    LET r == Ev.row + 1
        j == Ev.col + 1
    IN  IF ~(r \in 1..Rows(s) /\ j \in 1..s.w) THEN Stop("C02", "pivot position does not exist")
        ELSE IF RIsZero(s.T[r][j]) THEN Stop("C02", "pivot on a zero")
        ELSE LET x == Exchange(s, r, j)
                 m == Rows(s)
                 col == TLCEval([i \in 1..m |-> s.T[i][j]])
                 sys == TLCEval(SysOf(x))
                 steps == << <<CanPivot(s, r, j) \/ CanClear(s, r, j), "C02", "not a legal basis change">>,
                             <<BasicFeasible(x), "C02", "a basic value became negative">>,
                             <<RLe(ObjValue(x), ObjValue(s)), "C02", "the objective increased">>,
                             <<Chosen(s, j), "C16", "not the choice of the pivot rule">>,
                             <<CanPivot(s, r, j) => FirstToLeave(s, r, j), "C17", "tie between leaving columns">> >>
             IN  /\ At(x, (IF Free THEN <<>> ELSE steps) \o <<
                    <<RVEq(Ev.column, col), "C05", "column">>,
                    <<REq(Ev.cost, RelCost(s, j)), "C05", "relative cost of the entering column">>,
                    <<Ev.irow = Ev.row /\ Ev.icol = Ev.col /\ Ev.leaving + 1 = s.B[r], "C05", "description of the basis change">>,
                    <<RVEq(Ev.before, col), "C05", "column before the basis change">>,
                    <<Len(Ev.invrow) = m /\ RVEq(RVecMat(Ev.invrow, sys, x.w + 1), x.T[r]), "C16", "row of the new basis inverse">>,
                    <<Len(Ev.work) = m /\ RVEq(RVecMat(Ev.work, sys, x.w + 1), RVecMat(col, SubSeq(s.T, 1, m), x.w + 1)), "C16", "work vector">>
                  >> \o Observed(Ev, x))
                 /\ mem' = IF Free THEN mem ELSE IF stall > 0 /\ RuleAllows(s, "first", 0, j) THEN -1 ELSE j
                 /\ stall' = IF REq(ObjValue(x), ObjValue(s)) THEN stall + 1 ELSE 0

\* A pivot rule was asked.
DoRule ==
    LET none == Ev.sel = <<>>
        j == IF none THEN 0 ELSE Ev.sel[1] + 1
        ok == none \/ j \in ProblemColumns(s)
    IN  /\ At(s, IF none THEN <<<<Improving(s) = {}, "C16", "rule " \o Ev.rule \o " finds no column although there is one">>>>
                 ELSE << <<ok /\ RSign(RelCost(s, j)) < 0, "C16", "rule " \o Ev.rule \o " chose a column that does not improve">>,
                         <<ok /\ REq(Ev.cost, RelCost(s, j)), "C16", "relative cost reported by rule " \o Ev.rule>>,
                         <<ok /\ RuleAllows(s, Ev.rule, mem, j), "C16", "selection criterion of rule " \o Ev.rule>> >>)
        /\ mem' = IF Ev.rule = "memory" THEN IF none THEN -1 ELSE j ELSE mem
        /\ UNCHANGED stall

\* A quantity of the tableau was asked.
DoQuery ==
    LET j == Ev.j + 1
        i == Ev.i + 1
        m == Rows(s)
    IN  /\ At(s, <<<< CASE Ev.q = "relcost" -> REq(Ev.out, RelCost(s, j))
                        [] Ev.q = "column" -> RVEq(Ev.out, [k \in 1..m |-> s.T[k][j]])
                        [] Ev.q = "element" -> IF Ev.out = <<>> THEN RIsZero(s.T[i][j]) ELSE REq(Ev.out[1], s.T[i][j])
                        [] Ev.q = "original" -> RVEq(Ev.out, [k \in 1..m |-> SysOf(s)[k][j]])
                        [] Ev.q = "inbasis" -> (Ev.out = 1) = Basic(s, j)
                        [] Ev.q = "value" -> REq(Ev.out, ValueOf(s, j))
                        [] Ev.q = "bfs" -> RVEq(Ev.out, Point(s))
                        [] Ev.q = "objective" -> REq(Ev.out, ObjValue(s))
                        [] Ev.q = "row" -> IF Ev.out = <<>> THEN MinRatioRows(s, j) = {} ELSE Ev.out[1] + 1 \in MinRatioRows(s, j)
                        [] Ev.q = "size" -> Ev.out = <<m, s.w>>,
                        IF Ev.q = "row" THEN "C02" ELSE "C05", "tableau query " \o Ev.q >>,
                      << (Ev.q = "row" /\ Ev.out # <<>>) => FirstToLeave(s, Ev.out[1] + 1, j),
                        "C17", "tie between leaving columns">>>>)
        /\ UNCHANGED <<mem, stall>>

DoSwitch ==
    LET rem == ToSet(Inc(Ev.removed))
        x == TLCEval(SwitchTo(P, s, rem))
    IN  IF s.ph # 1 THEN Stop("C03", "second switch of phase")
        ELSE IF ~(rem \subseteq 1..Rows(s)) THEN Stop("C03", "removed rows do not exist")
        ELSE IF ~x.ok THEN Stop("C03", "what is handed to phase two is not a basis of problem columns")
        ELSE Go(x, <<
                <<CanSwitch(s), "C03", "phase one ended too early">>,
                <<rem = Redundant(s), "C03", "rows removed are not the redundant ones">>,
                <<BasicFeasible(x), "C03", "handed on basis is not feasible">>,
                <<Ev.nart = s.nart, "C03", "number of artificial variables">>
             >> \o Observed(Ev, x))

Res == Tr.result
\* (a verdict without any event is only possible before phase one or two started)
Verdict ==
    CASE Res.st = "infeasible" ->
            <<<<EndsInfeasible(s), "C03", "ended infeasible">>>>
      [] Res.st = "unbounded" ->
            <<<<EndsUnbounded(s), "C02", "ended unbounded without an improving ray">>>>
      [] Res.st = "opt" ->
            <<<<EndsOptimal(s), "C02", "ended optimal with an improving column left">>,
              <<s.ph = 1 \/ RVEq(Res.x, Point(s)), "C02", "solution is not the basic solution">>>>
      [] Res.st = "feasible" ->
            <<<<CanSwitch(s), "C03", "phase one ended too early">>,
              <<ToSet(Inc(Res.removed)) = Redundant(s) /\ Len(Res.removed) = Cardinality(Redundant(s)), "C03", "rows reported as redundant">>,
              <<Res.nart = s.nart, "C03", "number of artificial variables">>,
              <<{j \in ToSet(Inc(Res.basis)) : ~IsArt(s, j)} = {j \in ToSet(s.B) : ~IsArt(s, j)}, "C03", "basis columns reported">>>>
      [] Res.st = "done" -> <<>>
      [] Res.st = "cap" -> <<<<FALSE, "C17", "too many basis changes">>>>
      [] OTHER -> <<<<FALSE, "ANY", "panic: " \o Res.msg>>>>

DoResult ==
    /\ LET v == IF l = 1 /\ Res.st \notin {"panic", "cap"}
                THEN <<<<FALSE, "C02", "verdict without a run">>>> ELSE Verdict
       IN  Report(v) /\ bad' = (bad \/ Failing(v) # <<>>)
    /\ done' = TRUE /\ UNCHANGED <<t, l, s, mem, stall>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ s = [ok |-> FALSE] /\ bad = FALSE /\ done = FALSE /\ mem = 0 /\ stall = 0
Step ==
    IF l > Len(Tr.events) THEN DoResult
    ELSE IF l = 1 THEN IF Ev.ev = "init" THEN DoInit ELSE Stop("C02", "no initial state")
    ELSE CASE Ev.ev = "pivot" -> DoPivot
           [] Ev.ev = "switch" -> DoSwitch
           [] Ev.ev = "rule" -> DoRule
           [] Ev.ev = "query" -> DoQuery
           [] OTHER -> Stop("C02", "started again")
Finish == /\ done /\ l > 0
          /\ SayDone(Tr.id, bad)
          /\ l' = 0 /\ UNCHANGED <<t, s, bad, done, mem, stall>>
Next == (~done /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

\* invariants of the specified state along every run
Sound == s.ok => Canonical(s)
=============================================================================
