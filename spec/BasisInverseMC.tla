--------------------------- MODULE BasisInverseMC ---------------------------
(***************************************************************************)
(* All histories of column exchanges and removals of rows over vectors with entries in Entry.   *)
(* The inverse kept by the update formula is the inverse.  With Emit each  *)
(* history of Depth exchanges is printed, to be replayed by the code.      *)
(***************************************************************************)
EXTENDS BasisInverse, TLC, Json
CONSTANTS M, Depth, Emit
Entry == -1..1
VARIABLES s, h
vars == <<s, h>>
Vectors == [1..s.m -> Entry]
Lift(v) == [i \in 1..Len(v) |-> RI(v[i])]
Init == s = IdentityState(M) /\ h = <<>>
Exchange ==
    /\ Len(h) < Depth
    /\ \E r \in 1..s.m, v \in Vectors :
        /\ CanReplace(s, r, Lift(v))
        /\ s' = Replace(s, r, Lift(v))
        /\ h' = IF Emit THEN Append(h, <<r, v>>) ELSE Append(h, 0)
Drop ==
    /\ ~Emit /\ Len(h) < Depth
    /\ \E D \in SUBSET (1..s.m) :
        /\ D # {} /\ CanRemove(s, D)
        /\ s' = Remove(s, D) /\ h' = Append(h, 0)
\* (a behaviour is printed once, when it is complete)
Tell ==
    /\ Emit /\ Len(h) = Depth
    /\ PrintT("PLAN " \o ToJson([m |-> M, ops |-> h]))
    /\ h' = Append(h, 0) /\ UNCHANGED s
Next == Exchange \/ Drop \/ Tell
Spec == Init /\ [][Next]_vars
IsInverse == Inverse(s)
\* without histories states are identified up to the inverse
View == <<s.B, Len(h)>>
=============================================================================
