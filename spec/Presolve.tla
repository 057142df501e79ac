------------------------------ MODULE Presolve ------------------------------
(***************************************************************************)
(* Reducing a stated problem by rules.                                     *)
(*                                                                         *)
(* The state s is what is left of the problem:                             *)
(*   rows   the rows [a, lo, hi] with on[i] telling which are left,        *)
(*   lo, hi bounds of the variables, alive[j] telling which are left,      *)
(*   const  what the removed variables contribute to the (minimised) cost, *)
(*   ray    there is a direction of improvement: unbounded if feasible,    *)
(*   closed nothing satisfies the problem,                                 *)
(*   back   how to recover the removed variables, the last one first.      *)
(* Each rule is a function of the state and an action with a guard; a      *)
(* reduction is any sequence of them.  Whichever is taken, what is left    *)
(* stands for the stated problem (module PresolveMC).                      *)
(***************************************************************************)
EXTENDS GeneralForm

Start(P) == [rows |-> P.rows, on |-> [i \in 1..Len(P.rows) |-> TRUE], lo |-> P.lo, hi |-> P.hi,
             alive |-> [j \in 1..P.n |-> TRUE], const |-> R0, ray |-> FALSE, closed |-> FALSE, back |-> <<>>]
Vars(s) == {j \in 1..Len(s.alive) : s.alive[j]}
RowsOn(s) == {i \in 1..Len(s.on) : s.on[i]}
\* variables of row i, rows of variable j
In(s, i) == {j \in Vars(s) : ~RIsZero(s.rows[i].a[j])}
Of(s, j) == {i \in RowsOn(s) : ~RIsZero(s.rows[i].a[j])}

\* optional bounds
Tighter(o, v, up) == IF ~Has(o) THEN TRUE ELSE IF up THEN RLt(v, Val(o)) ELSE RLt(Val(o), v)
Move(o, d) == IF Has(o) THEN <<RSub(Val(o), d)>> ELSE o
Crossed(lo, hi) == Has(lo) /\ Has(hi) /\ RLt(Val(hi), Val(lo))
NewHi(s, j, v) == IF ~Tighter(s.hi[j], v, TRUE) THEN s
                  ELSE LET t == [s EXCEPT !.hi[j] = <<v>>] IN [t EXCEPT !.closed = @ \/ Crossed(t.lo[j], t.hi[j])]
NewLo(s, j, v) == IF ~Tighter(s.lo[j], v, FALSE) THEN s
                  ELSE LET t == [s EXCEPT !.lo[j] = <<v>>] IN [t EXCEPT !.closed = @ \/ Crossed(t.lo[j], t.hi[j])]

---------------------------------------------------------------------------
(* A row without variables says nothing, or is violated. *)
IsEmptyRow(s, i) == In(s, i) = {}
EmptyRow(s, i) == [s EXCEPT !.on[i] = FALSE, !.closed = @ \/ ~InInterval(R0, s.rows[i].lo, s.rows[i].hi)]

(* A row of one variable bounds it. *)
IsBoundRow(s, i) == Cardinality(In(s, i)) = 1
BoundRow(s, i) ==
    LET j == CHOOSE j \in In(s, i) : TRUE
        r == s.rows[i]
        v(o) == RDiv(Val(o), r.a[j])
        hi == IF RSign(r.a[j]) > 0 THEN r.hi ELSE r.lo
        lo == IF RSign(r.a[j]) > 0 THEN r.lo ELSE r.hi
        t == [s EXCEPT !.on[i] = FALSE]
        u == IF Has(hi) THEN NewHi(t, j, v(hi)) ELSE t
    IN  IF Has(lo) THEN NewLo(u, j, v(lo)) ELSE u

(* A variable with one possible value is replaced by it. *)
IsFixed(s, j) == Has(s.lo[j]) /\ Has(s.hi[j]) /\ REq(Val(s.lo[j]), Val(s.hi[j]))
Substitute(P, s, j, v) ==
    [s EXCEPT !.alive[j] = FALSE,
              !.rows = [i \in 1..Len(s.rows) |-> LET d == RMul(s.rows[i].a[j], v)
                                                IN  [s.rows[i] EXCEPT !.lo = Move(@, d), !.hi = Move(@, d)]],
              !.const = RAdd(@, RMul(MinCost(P)[j], v)),
              !.back = <<[j |-> j, kind |-> "value", v |-> v]>> \o @]

(* A variable that no row contains takes its best value, if there is one. *)
IsUnused(s, j) == Of(s, j) = {}
Unused(P, s, j) ==
    LET c == RSign(MinCost(P)[j])
        best == IF c > 0 THEN s.lo[j] ELSE IF c < 0 THEN s.hi[j] ELSE IF Has(s.lo[j]) THEN s.lo[j] ELSE s.hi[j]
        some == IF Has(s.lo[j]) THEN s.lo[j] ELSE s.hi[j]
    IN  IF Has(best) THEN Substitute(P, s, j, Val(best))
        ELSE [Substitute(P, s, j, IF Has(some) THEN Val(some) ELSE R0) EXCEPT !.ray = @ \/ c # 0]

(* A variable without cost in one row widens the row's interval and is     *)
(* chosen last.                                                            *)
IsSlack(P, s, j) == Cardinality(Of(s, j)) = 1 /\ RIsZero(MinCost(P)[j])
Slack(s, j) ==
    LET i == CHOOSE i \in Of(s, j) : TRUE
        r == s.rows[i]
        a == r.a[j]
        top == IF RSign(a) > 0 THEN s.hi[j] ELSE s.lo[j]    \* where a x_j is largest
        low == IF RSign(a) > 0 THEN s.lo[j] ELSE s.hi[j]
        widen(o, b) == IF Has(o) /\ Has(b) THEN <<RSub(Val(o), RMul(a, Val(b)))>> ELSE None
    IN  [s EXCEPT !.alive[j] = FALSE,
                  !.rows[i].lo = widen(r.lo, top), !.rows[i].hi = widen(r.hi, low),
                  !.back = <<[j |-> j, kind |-> "slack", row |-> r, others |-> In(s, i) \ {j}, lo |-> s.lo[j], hi |-> s.hi[j]]>> \o @]

(* The activity of a row: the interval of a . x over the bounds. *)
RECURSIVE SumEnds(_, _, _, _)
SumEnds(s, i, J, up) ==
    IF J = {} THEN <<R0>>
    ELSE LET j == CHOOSE j \in J : TRUE
             a == s.rows[i].a[j]
             e == IF (RSign(a) > 0) = up THEN s.hi[j] ELSE s.lo[j]
             q == SumEnds(s, i, J \ {j}, up)
         IN  IF Has(e) /\ Has(q) THEN <<RAdd(RMul(a, Val(e)), Val(q))>> ELSE None
MaxActivity(s, i) == SumEnds(s, i, In(s, i), TRUE)
MinActivity(s, i) == SumEnds(s, i, In(s, i), FALSE)

(* A side of a row that the bounds imply is dropped; a row that they       *)
(* contradict closes the problem.                                          *)
HiImplied(s, i) == Has(s.rows[i].hi) /\ Has(MaxActivity(s, i)) /\ RLe(Val(MaxActivity(s, i)), Val(s.rows[i].hi))
LoImplied(s, i) == Has(s.rows[i].lo) /\ Has(MinActivity(s, i)) /\ RLe(Val(s.rows[i].lo), Val(MinActivity(s, i)))
DropSides(s, i) ==
    LET hi == IF HiImplied(s, i) THEN None ELSE s.rows[i].hi
        lo == IF LoImplied(s, i) THEN None ELSE s.rows[i].lo
    IN  [s EXCEPT !.rows[i].lo = lo, !.rows[i].hi = hi, !.on[i] = Has(lo) \/ Has(hi)]
Contradicted(s, i) == \/ Has(s.rows[i].hi) /\ Has(MinActivity(s, i)) /\ RLt(Val(s.rows[i].hi), Val(MinActivity(s, i)))
                      \/ Has(s.rows[i].lo) /\ Has(MaxActivity(s, i)) /\ RLt(Val(MaxActivity(s, i)), Val(s.rows[i].lo))
Close(s) == [s EXCEPT !.closed = TRUE]

(* What the row and the other bounds say about one of its variables. *)
Propagated(s, i, j) ==
    LET r == s.rows[i]
        a == r.a[j]
        low == SumEnds(s, i, In(s, i) \ {j}, FALSE)
        top == SumEnds(s, i, In(s, i) \ {j}, TRUE)
        \* a x_j <= hi - low  and  a x_j >= lo - top
        h == IF Has(r.hi) /\ Has(low) THEN <<RDiv(RSub(Val(r.hi), Val(low)), a)>> ELSE None
        l == IF Has(r.lo) /\ Has(top) THEN <<RDiv(RSub(Val(r.lo), Val(top)), a)>> ELSE None
    IN  IF RSign(a) > 0 THEN [lo |-> l, hi |-> h] ELSE [lo |-> h, hi |-> l]
CanPropagate(s, i, j) == LET q == Propagated(s, i, j)
                         IN  \/ Has(q.hi) /\ Tighter(s.hi[j], Val(q.hi), TRUE)
                             \/ Has(q.lo) /\ Tighter(s.lo[j], Val(q.lo), FALSE)
Propagate(s, i, j) == LET q == Propagated(s, i, j)
                          t == IF Has(q.hi) THEN NewHi(s, j, Val(q.hi)) ELSE s
                      IN  IF Has(q.lo) THEN NewLo(t, j, Val(q.lo)) ELSE t

---------------------------------------------------------------------------
(* What is left, as a problem over all variables (removed ones are 0).     *)
Left(P, s) ==
    LET zero(v) == [j \in 1..P.n |-> IF s.alive[j] THEN v[j] ELSE R0]
        keep == SelectSeq([i \in 1..Len(s.rows) |-> i], LAMBDA i : s.on[i])
    IN  [n |-> P.n, max |-> FALSE, fixed |-> R0, names |-> P.names,
         cost |-> zero(MinCost(P)),
         lo |-> [j \in 1..P.n |-> IF s.alive[j] THEN s.lo[j] ELSE <<R0>>],
         hi |-> [j \in 1..P.n |-> IF s.alive[j] THEN s.hi[j] ELSE <<R0>>],
         rows |-> [k \in 1..Len(keep) |-> [a |-> zero(s.rows[keep[k]].a), lo |-> s.rows[keep[k]].lo, hi |-> s.rows[keep[k]].hi]]]
LeftAnswer(P, s) ==
    IF s.closed THEN [st |-> "infeasible"]
    ELSE LET a == TLCEval(Answer(Left(P, s)))
         IN  IF a.st = "infeasible" THEN [st |-> a.st]
             ELSE IF s.ray \/ a.st = "unbounded" THEN [st |-> "unbounded"]
             ELSE [st |-> "opt", val |-> RAdd(s.const, a.val)]

(* A point of what is left, with the removed variables recovered. *)
RECURSIVE Recover(_, _, _)
Recover(x, back, k) ==
    IF k > Len(back) THEN x
    ELSE LET e == back[k]
             rest == RDot(e.row.a, [j \in 1..Len(x) |-> IF j \in e.others THEN x[j] ELSE R0])
             a == e.row.a[e.j]
             low == IF RSign(a) > 0 THEN Move(e.row.lo, rest) ELSE Move(e.row.hi, rest)
             top == IF RSign(a) > 0 THEN Move(e.row.hi, rest) ELSE Move(e.row.lo, rest)
             \* any value that respects row and bounds
             pick == CASE Has(low) /\ (~Has(e.lo) \/ RLe(Val(e.lo), RDiv(Val(low), a))) -> RDiv(Val(low), a)
                       [] Has(e.lo) -> Val(e.lo)
                       [] Has(top) /\ (~Has(e.hi) \/ RLe(RDiv(Val(top), a), Val(e.hi))) -> RDiv(Val(top), a)
                       [] Has(e.hi) -> Val(e.hi)
                       [] OTHER -> R0
         IN  Recover([x EXCEPT ![e.j] = IF e.kind = "value" THEN e.v ELSE pick], back, k + 1)
=============================================================================
