------------------------------- MODULE Sparse -------------------------------
(* Sparse vectors as represented: length, indices (from 0) and values. *)
EXTENDS Rat

\* strictly increasing indices within the length, no explicit zeros
SparseOk(sv) ==
    /\ Len(sv.i) = Len(sv.v)
    /\ \A k \in 1..Len(sv.i) : sv.i[k] >= 0 /\ sv.i[k] < sv.len /\ ~RIsZero(sv.v[k])
    /\ \A k \in 1..(Len(sv.i) - 1) : sv.i[k] < sv.i[k + 1]
\* the vector meant
Dense(sv) ==
    [p \in 1..sv.len |->
        IF \E k \in 1..Len(sv.i) : sv.i[k] = p - 1 THEN sv.v[CHOOSE k \in 1..Len(sv.i) : sv.i[k] = p - 1] ELSE R0]
=============================================================================
