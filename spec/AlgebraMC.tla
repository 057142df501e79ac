----------------------------- MODULE AlgebraMC -----------------------------
(***************************************************************************)
(* Every vector of at most MaxLen entries in -1..1 with every operation    *)
(* over small operands: one transition each, printed to be taken by the    *)
(* code.  Algebraic laws are invariants.                                   *)
(***************************************************************************)
EXTENDS Algebra, TLC, Json
CONSTANTS MaxLen, Emit
Entry == -1..1
Lift(v) == [k \in 1..Len(v) |-> RI(v[k])]
RECURSIVE Subs(_)
\* all strictly increasing index lists below n
Subs(n) == IF n = 0 THEN {<<>>} ELSE LET r == Subs(n - 1) IN r \cup {Append(q, n - 1) : q \in r}
Op(name, i, x, o) == [op |-> name, i |-> i, x |-> x, o |-> o]
Ops(v) ==
    LET n == Len(v) IN
    {Op("push", <<>>, <<1>>, <<>>), Op("extend", <<2>>, <<>>, <<>>), Op("norm", <<>>, <<>>, <<>>), Op("new", <<>>, <<>>, <<>>)}
    \cup {Op("set", <<i>>, <<x>>, <<>>) : i \in 0..(n - 1), x \in {-1, 2}}
    \cup {Op("shift", <<i>>, <<x>>, <<>>) : i \in 0..(n - 1), x \in Entry}
    \cup {Op("remove", q, <<>>, <<>>) : q \in {q \in Subs(n) : Len(q) < n}}
    \cup {Op("add", <<>>, <<x>>, o) : x \in {-1, 2}, o \in [1..n -> Entry]}
    \cup {Op(f, <<>>, <<x>>, <<>>) : f \in {"mul", "div"}, x \in {-2, 1}}
    \cup {Op("dot", <<>>, <<>>, o) : o \in [1..n -> Entry]}
    \cup {Op("dotd", <<>>, <<>>, o) : o \in [1..n -> {-1, 2}]}
VARIABLES v, op
Init == v \in UNION {[1..n -> Entry] : n \in 1..MaxLen} /\ op = <<>>
Next == op = <<>> /\ op' \in Ops(v) /\ UNCHANGED v
        /\ IF Emit THEN PrintT("PLAN " \o ToJson([start |-> v, op |-> op'])) ELSE TRUE
Spec == Init /\ [][Next]_<<v, op>>
Num(o) == [o EXCEPT !.x = Lift(@), !.o = Lift(@)]
Laws ==
    op # <<>> => LET V == Lift(v)
                     w == VecAfter(V, Num(op))
                 IN  /\ VecCan(V, Num(op))
                     /\ op.op = "add" => RVEq(RVSub(w, RVScale(RI(op.x[1]), Lift(op.o))), V)
                     /\ op.op = "div" => RVEq(RVScale(RI(op.x[1]), w), V)
                     /\ op.op = "remove" => Len(w) = Len(v) - Len(op.i)
                     /\ op.op = "norm" => REq(VecAnswer(V, Num(op))[1], RDot(V, V))
=============================================================================
