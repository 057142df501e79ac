----------------------------- MODULE SimplexMC -----------------------------
(***************************************************************************)
(* Every behaviour of the simplex state machine on every standard form     *)
(* problem within small bounds: all entries of A, b, c from the given      *)
(* sets.  From the fully artificial start; every improving column and      *)
(* every row of minimum ratio is tried.                                    *)
(***************************************************************************)
EXTENDS Simplex
\* BlandOnly: Bland's rule is used after Patience steps without progress (and until there is some)
CONSTANTS M, N, K, BlandOnly, Patience
Entries == (-K)..K
Rhss == 0..K
Costs == (-K)..K

VARIABLES p, s, out, stall
vars == <<p, s, out, stall>>

\* up to the order of the columns
Problems == {q \in [A : [1..M -> [1..N -> Entries]], b : [1..M -> Rhss], c : [1..N -> Costs]] : TRUE}
Rational(q) == [n |-> N, A |-> [i \in 1..M |-> [j \in 1..N |-> RI(q.A[i][j])]],
                b |-> [i \in 1..M |-> RI(q.b[i])], c |-> [j \in 1..N |-> RI(q.c[j])]]

Init ==
    /\ \E q \in Problems : p = Rational(q)
    /\ s = StateAt(p, 1, AllRows(p), AllRows(p), AllRows(p))
    /\ out = "run" /\ stall = 0

\* Bland's rule, for the termination property
Bland(r, j) == /\ \A k \in Improving(s) : j <= k
               /\ FirstToLeave(s, r, j)

Pivot == \E j \in 1..s.w, r \in 1..Rows(s) :
            /\ CanPivot(s, r, j) /\ ~IsArt(s, j)
            /\ (BlandOnly /\ stall >= Patience) => Bland(r, j)
            /\ s' = Exchange(s, r, j) /\ UNCHANGED <<p, out>>
            /\ stall' = IF ~REq(ObjValue(s'), ObjValue(s)) THEN 0 ELSE IF stall < Patience THEN stall + 1 ELSE stall
Clear == \E j \in 1..s.w, r \in 1..Rows(s) :
            /\ CanClear(s, r, j)
            /\ s' = Exchange(s, r, j) /\ UNCHANGED <<p, out, stall>>
Switch == /\ CanSwitch(s)
          /\ s' = SwitchTo(p, s, Redundant(s)) /\ stall' = 0 /\ UNCHANGED <<p, out>>
Stop == /\ \/ EndsInfeasible(s) /\ out' = "infeasible"
           \/ EndsOptimal(s) /\ out' = "opt"
           \/ EndsUnbounded(s) /\ out' = "unbounded"
        /\ UNCHANGED <<p, s, stall>>
Next == out = "run" /\ (Pivot \/ Clear \/ Switch \/ Stop)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sys == [A |-> p.A, b |-> p.b, n |-> p.n]
IsState == s.ok
Feas == BasicFeasible(s)
Canon1 == Canonical(s)
\* The tableau is the one the definitions give for the basis.
Defined ==
    LET art == IF s.ph = 1 THEN AllRows(p) ELSE <<>>
        d == StateAt(p, s.ph, art, s.kept, s.B)
    IN  d.ok /\ \A i \in 1..(Rows(s) + 1) : RVEq(d.T[i], s.T[i])
NoArtificialInTwo == s.ph = 2 => s.nart = 0
\* Nothing else can happen: the method never gets stuck without a verdict.
NotStuck == out = "run" => ENABLED Next
\* The verdict is the meaning of the problem.
Verdict ==
    out # "run" =>
        LET a == Solve(Sys, p.c)
        IN  /\ CertificateOk(Sys, p.c, a)
            /\ out = a.st
            /\ out = "opt" => StdSatisfies(Sys, Point(s)) /\ REq(ObjValue(s), a.val)
\* Removing the redundant rows leaves the same solutions.
SameRank == s.ph = 2 =>
    LET full == Feasible(Sys) IN full.ok /\ Cardinality({i \in 1..full.m : full.B[i] <= full.n}) = Len(s.kept)
\* The objective never increases within a phase.
Monotone == [][s'.ph = s.ph => RLe(ObjValue(s'), ObjValue(s))]_vars
Terminates == <>(out # "run")
=============================================================================
