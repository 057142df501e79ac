------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Small standard form problems  A y = b, y >= 0, min c . y, printed for   *)
(* the code to solve: all of them, or a random choice.  Slacks of them are *)
(* unit columns with a cost of zero behind the others; the first Slacks    *)
(* rows have one.  What the code does with a problem is judged by Results  *)
(* and SimplexTrace.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS M, N, K, Slacks, Choose
Shapes == [1..(M * N + M + N) -> (-K)..K]
Abs(z) == IF z < 0 THEN -z ELSE z
VARIABLES p, done
Unit(i) == [k \in 1..M |-> IF k = i THEN 1 ELSE 0]
\* columns of the problem, slacks last
Columns(q) == [j \in 1..N |-> [i \in 1..M |-> q[(i - 1) * N + j]]] \o [i \in 1..Slacks |-> Unit(i)]
Right(q) == [i \in 1..M |-> Abs(q[M * N + i])]
Costs(q) == [j \in 1..N |-> q[M * N + M + j]] \o [i \in 1..Slacks |-> 0]
Init == p \in (IF Choose = 0 THEN {q \in Shapes : \A i \in 1..M : q[M * N + i] >= 0} ELSE RandomSubset(Choose, Shapes)) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT("PLAN " \o ToJson([cols |-> Columns(p), b |-> Right(p), c |-> Costs(p)])) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
=============================================================================
