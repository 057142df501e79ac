----------------------------- MODULE PresolveMC -----------------------------
(***************************************************************************)
(* Every reduction of every stated problem within small bounds (or of a    *)
(* random choice of them): at any time what is left stands for the         *)
(* problem, in verdict and optimal value, and its solutions are recovered  *)
(* as solutions of the problem.  Bounds may be improved at most Budget     *)
(* times (that need not end).  With Emit the problems are printed, for the *)
(* code to take through its own presolving.                                *)
(***************************************************************************)
EXTENDS Presolve, Randomization, Json
CONSTANTS M, N, Choose, Budget, Emit

Opt(a, b) == <<a, b>>
\* pairs of optional integers
Intervals == { <<<<>>, <<1>>>>, <<<<0>>, <<>>>>, <<<<0>>, <<1>>>>, <<<<1>>, <<1>>>>, <<<<-1>>, <<2>>>>, <<<<>>, <<-1>>>> }
Domains == { <<<<>>, <<>>>>, <<<<0>>, <<>>>>, <<<<>>, <<1>>>>, <<<<0>>, <<2>>>>, <<<<-1>>, <<1>>>>, <<<<1>>, <<1>>>> }
Shapes == [a : [1..M -> [1..N -> -1..2]], r : [1..M -> Intervals], d : [1..N -> Domains], c : [1..N -> -1..1], max : BOOLEAN, fixed : {0, 3}]
Lift(o) == [k \in 1..Len(o) |-> RI(o[k])]
Names == [j \in 1..N |-> "v" \o ToString(j)]
Problem(q) == [n |-> N, max |-> q.max, fixed |-> RI(q.fixed), cost |-> [j \in 1..N |-> RI(q.c[j])],
               lo |-> [j \in 1..N |-> Lift(q.d[j][1])], hi |-> [j \in 1..N |-> Lift(q.d[j][2])],
               rows |-> [i \in 1..M |-> [a |-> [j \in 1..N |-> RI(q.a[i][j])], lo |-> Lift(q.r[i][1]), hi |-> Lift(q.r[i][2])]],
               names |-> Names]

VARIABLES p, s, n, true
vars == <<p, s, n, true>>
Init == /\ p \in IF Choose = 0 THEN Shapes ELSE RandomSubset(Choose, Shapes)
        /\ s = Start(Problem(p)) /\ n = 0
        /\ IF Emit THEN true = [st |-> ""] /\ PrintT("PLAN " \o ToJson(p))
           ELSE true = Answer(Problem(p))
P == Problem(p)
Same == UNCHANGED <<p, n, true>>
Free == ~s.closed /\ ~Emit
Rule1 == \E i \in RowsOn(s) : IsEmptyRow(s, i) /\ s' = EmptyRow(s, i) /\ Same
Rule2 == \E i \in RowsOn(s) : IsBoundRow(s, i) /\ s' = BoundRow(s, i) /\ Same
Rule3 == \E j \in Vars(s) : IsFixed(s, j) /\ s' = Substitute(P, s, j, Val(s.lo[j])) /\ Same
Rule4 == \E j \in Vars(s) : IsUnused(s, j) /\ s' = Unused(P, s, j) /\ Same
Rule5 == \E j \in Vars(s) : IsSlack(P, s, j) /\ s' = Slack(s, j) /\ Same
Rule6 == \E i \in RowsOn(s) : (HiImplied(s, i) \/ LoImplied(s, i)) /\ s' = DropSides(s, i) /\ Same
Rule7 == \E i \in RowsOn(s) : Contradicted(s, i) /\ s' = Close(s) /\ Same
Rule8 == n < Budget /\ \E i \in RowsOn(s) : \E j \in In(s, i) :
            CanPropagate(s, i, j) /\ s' = Propagate(s, i, j) /\ n' = n + 1 /\ UNCHANGED <<p, true>>
Next == Free /\ (Rule1 \/ Rule2 \/ Rule3 \/ Rule4 \/ Rule5 \/ Rule6 \/ Rule7 \/ Rule8)
Spec == Init /\ [][Next]_vars

\* (true holds the answer to the minimised problem)
StandsFor == Emit \/ LET a == TLCEval(LeftAnswer(P, s))
             IN  a.st = true.st /\ (a.st = "opt" => REq(a.val, true.val))
Recovered == (~Emit /\ true.st = "opt" /\ ~s.closed) =>
    LET S == Std(Left(P, s))
        a == TLCEval(Answer(Left(P, s)))
        x == TLCEval(Recover(StdBack(S, a.x), s.back, 1))
    IN  Satisfies(P, x) /\ REq(RDot(MinCost(P), x), true.val)
Certified == Emit \/ AnswerSound(P)
\* Nothing is left undone that a rule without bounds to improve could do, at the end.
Small == (~Free \/ ENABLED Next) \/ \A i \in RowsOn(s) : Cardinality(In(s, i)) > 1
=============================================================================
