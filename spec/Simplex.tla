------------------------------ MODULE Simplex ------------------------------
(***************************************************************************)
(* The two-phase primal simplex method as a state machine.                 *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   ph    1 (minimising the sum of the artificial variables) or 2         *)
(*   nart  number of artificial columns; they are the columns 1..nart      *)
(*   w     number of columns (artificial ones included)                    *)
(*   kept  the rows of the problem that remain, in order                   *)
(*   B     the basis: B[i] is the column that is basic in position i       *)
(*   T     the tableau, fully determined by the problem and B: one row per *)
(*         position with B^-1 [columns | rhs], then the row of relative    *)
(*         costs with minus the objective value as its last entry          *)
(* What the method may do in a state are the actions below; they are       *)
(* nondeterministic: any improving column, any row of minimum ratio.       *)
(***************************************************************************)
EXTENDS LP

---------------------------------------------------------------------------
(* Tableaux by definition *)

\* Row reduce the rows M such that column B[i] becomes the i-th unit column.
RECURSIVE Reduce(_, _, _, _)
Reduce(M, B, i, used) ==
    IF i > Len(B) THEN [ok |-> TRUE, M |-> M, at |-> used]
    ELSE LET C == {r \in 1..Len(M) : (\A k \in 1..Len(used) : used[k] # r) /\ ~RIsZero(M[r][B[i]])}
         IN  IF C = {} THEN [ok |-> FALSE]
             ELSE LET r == CHOOSE r \in C : TRUE
                  IN  Reduce(TLCEval(RPivot(M, r, B[i])), B, i + 1, Append(used, r))
Canon(M, B) ==
    IF Len(B) # Len(M) THEN [ok |-> FALSE]
    ELSE LET red == TLCEval(Reduce(M, B, 1, <<>>))
         IN  IF red.ok THEN [ok |-> TRUE, T |-> [i \in 1..Len(B) |-> red.M[red.at[i]]]]
             ELSE [ok |-> FALSE]

\* Append the cost row c (of the w columns), priced out.
RECURSIVE Price(_, _, _, _)
Price(d, T, B, i) == IF i > Len(B) THEN d
                     ELSE Price(TLCEval(RAxpy(RNeg(d[B[i]]), T[i], d)), T, B, i + 1)
WithCosts(T, B, c) == Append(T, Price(TLCEval(Append(c, R0)), T, B, 1))

\* The rows `kept` of a problem p = [A, b, c, n] (rows are sequences) behind the artificial
\* columns for the rows art.
SystemRows(p, kept, art) ==
    [i \in 1..Len(kept) |->
        TLCEval([k \in 1..Len(art) |-> IF art[k] = kept[i] THEN R1 ELSE R0] \o p.A[kept[i]] \o <<p.b[kept[i]]>>)]
AllRows(p) == [i \in 1..Len(p.A) |-> i]
PhaseOneCosts(p, art) == [k \in 1..(Len(art) + p.n) |-> IF k <= Len(art) THEN R1 ELSE R0]

\* The state with basis B; [ok |-> FALSE] if B is not a basis.
StateAt(p, ph, art, kept, B) ==
    LET nart == Len(art)
        w == nart + p.n
        can == Canon(SystemRows(p, kept, art), B)
    IN  IF ~(Len(B) = Len(kept) /\ \A i \in 1..Len(B) : B[i] \in 1..w) THEN [ok |-> FALSE]
        ELSE IF ~can.ok THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, ph |-> ph, nart |-> nart, w |-> w, kept |-> kept, B |-> B,
              T |-> WithCosts(can.T, B, IF ph = 1 THEN PhaseOneCosts(p, art) ELSE p.c)]

---------------------------------------------------------------------------
(* Reading a state *)

Rows(s) == Len(s.B)
Rhs(s, i) == s.T[i][s.w + 1]
RelCost(s, j) == s.T[Rows(s) + 1][j]
ObjValue(s) == RNeg(s.T[Rows(s) + 1][s.w + 1])
Basic(s, j) == \E i \in 1..Rows(s) : s.B[i] = j
IsArt(s, j) == j <= s.nart
ValueOf(s, j) == IF Basic(s, j) THEN Rhs(s, CHOOSE i \in 1..Rows(s) : s.B[i] = j) ELSE R0
ProblemColumns(s) == (s.nart + 1)..s.w
Improving(s) == {j \in ProblemColumns(s) : RSign(RelCost(s, j)) < 0}
MinRatioRows(s, j) ==
    LET P == {i \in 1..Rows(s) : RSign(s.T[i][j]) > 0}
    IN  {i \in P : \A k \in P : RLe(RDiv(Rhs(s, i), s.T[i][j]), RDiv(Rhs(s, k), s.T[k][j]))}
\* Bland's rule for the leaving variable: of several rows that attain the minimum, the one with the first basic column.
FirstToLeave(s, r, j) == r \in MinRatioRows(s, j) /\ \A k \in MinRatioRows(s, j) : s.B[r] <= s.B[k]
Point(s) == [j \in 1..(s.w - s.nart) |-> ValueOf(s, s.nart + j)]

---------------------------------------------------------------------------
(* Actions *)

Exchange(s, r, j) == [s EXCEPT !.T = TLCEval(RPivot(s.T, r, j)), !.B = TLCEval([s.B EXCEPT ![r] = j])]

\* Bring in an improving column, at a row of minimum ratio.
CanPivot(s, r, j) ==
    /\ j \in 1..s.w /\ r \in 1..Rows(s)
    /\ RSign(RelCost(s, j)) < 0
    /\ r \in MinRatioRows(s, j)
    /\ s.ph = 2 => ~IsArt(s, j)

\* At the end of phase one: replace an artificial variable that is at level zero.
CanClear(s, r, j) ==
    /\ s.ph = 1 /\ j \in ProblemColumns(s) /\ r \in 1..Rows(s)
    /\ RIsZero(ObjValue(s))
    /\ IsArt(s, s.B[r]) /\ RIsZero(Rhs(s, r))
    /\ ~RIsZero(s.T[r][j])

\* Positions whose row says nothing about the problem columns.
Redundant(s) ==
    {i \in 1..Rows(s) : IsArt(s, s.B[i]) /\ \A j \in ProblemColumns(s) : RIsZero(s.T[i][j])}

\* Phase one may end when the objective is zero and every artificial variable left marks a
\* redundant position.
CanSwitch(s) ==
    /\ s.ph = 1 /\ RIsZero(ObjValue(s))
    /\ \A i \in 1..Rows(s) : IsArt(s, s.B[i]) => i \in Redundant(s)

\* The state of phase two. `removed` are positions in kept.
Others(s, removed) == SelectSeq([i \in 1..Rows(s) |-> i], LAMBDA i : i \notin removed)
SwitchTo(p, s, removed) ==
    LET left == Others(s, removed)
    IN  StateAt(p, 2, <<>>, [k \in 1..Len(left) |-> s.kept[left[k]]],
                [k \in 1..Len(left) |-> s.B[left[k]] - s.nart])

EndsInfeasible(s) == s.ph = 1 /\ Improving(s) = {} /\ RSign(ObjValue(s)) > 0
EndsOptimal(s) == s.ph = 2 /\ Improving(s) = {}
EndsUnbounded(s) == s.ph = 2 /\ \E j \in Improving(s) : MinRatioRows(s, j) = {}

---------------------------------------------------------------------------
(* What every reachable state satisfies *)

BasicFeasible(s) == \A i \in 1..Rows(s) : RSign(Rhs(s, i)) >= 0
\* unit columns and zero relative cost in the basis
Canonical(s) ==
    \A i \in 1..Rows(s) :
        /\ RIsZero(RelCost(s, s.B[i]))
        /\ \A k \in 1..Rows(s) : REq(s.T[k][s.B[i]], IF k = i THEN R1 ELSE R0)
=============================================================================
