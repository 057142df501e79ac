------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* Directed graphs: vertices 0..n-1 and arcs <<from, to, value>> in order. *)
(* The node-arc incidence matrix, shortest paths and maximum flows, by     *)
(* definition: distances are least over walks (Bellman-Ford), the maximum  *)
(* flow value is the least capacity of a cut.                              *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

V(G) == 0..(G.n - 1)
Arcs(G) == {G.arcs[k] : k \in 1..Len(G.arcs)}

\* Column of an arc when the rows of the vertices R are left out: <<row, sign>> by row
Shifted(v, R) == v - Cardinality({u \in R : u < v})
Column(a, R) ==
    LET ends == {e \in {<<a[1], -1>>, <<a[2], 1>>} : e[1] \notin R}
        pair == {<<Shifted(e[1], R), e[2]>> : e \in ends}
    IN  IF pair = {} THEN <<>>
        ELSE IF Cardinality(pair) = 1 THEN <<CHOOSE p \in pair : TRUE>>
        ELSE LET f == CHOOSE p \in pair : \A o \in pair : p[1] <= o[1]
             IN  <<f, CHOOSE p \in pair : p # f>>
\* A column with some of its rows left out
DropRows(c, D) ==
    LET k == SelectSeq(c, LAMBDA e : e[1] \notin D) IN [j \in 1..Len(k) |-> <<Shifted(k[j][1], D), k[j][2]>>]

---------------------------------------------------------------------------
\* Infinity is any number beyond the weights of all walks considered
Inf == 1000000
\* d after allowing one arc more
Relax(G, d) ==
    [v \in V(G) |->
        LET via == {d[a[1]] + a[3] : a \in {a \in Arcs(G) : a[2] = v /\ d[a[1]] < Inf}} \cup {d[v]}
        IN  CHOOSE x \in via : \A y \in via : x <= y]
RECURSIVE RelaxTimes(_, _, _)
RelaxTimes(G, d, k) == IF k = 0 THEN d ELSE RelaxTimes(G, TLCEval(Relax(G, d)), k - 1)
\* from every vertex at once: still improving after n rounds means a negative cycle somewhere
NegativeCycle(G) ==
    LET d == TLCEval(RelaxTimes(G, [v \in V(G) |-> 0], G.n)) IN Relax(G, d) # d
RECURSIVE Reach(_, _)
Reach(G, S) == LET T == S \cup {a[2] : a \in {a \in Arcs(G) : a[1] \in S}} IN IF T = S THEN S ELSE Reach(G, T)
Distances(G, s) == RelaxTimes(G, [v \in V(G) |-> IF v = s THEN 0 ELSE Inf], G.n)
\* The linear program: one unit from s to t at least cost.  A negative cycle anywhere can be
\* used without end, connected to the path or not.
PathAnswer(G, s, t) ==
    IF t \notin Reach(G, {s}) THEN [st |-> "infeasible"]
    ELSE IF NegativeCycle(G) THEN [st |-> "unbounded"]
    ELSE [st |-> "opt", val |-> Distances(G, s)[t]]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})
CutValue(G, S) == SumOver([k \in 1..Len(G.arcs) |-> G.arcs[k][3]],
                          {k \in 1..Len(G.arcs) : G.arcs[k][1] \in S /\ G.arcs[k][2] \notin S})
MinCut(G, s, t) ==
    LET C == {CutValue(G, S \cup {s}) : S \in SUBSET (V(G) \ {s, t})} IN CHOOSE x \in C : \A y \in C : x <= y

---------------------------------------------------------------------------
\* Flows as sequences of rationals, one for each arc
RECURSIVE RSum(_)
RSum(q) == IF q = <<>> THEN R0 ELSE RAdd(Head(q), RSum(Tail(q)))
OutOf(G, x, v) == RSum([k \in 1..Len(G.arcs) |-> IF G.arcs[k][1] = v THEN x[k] ELSE R0])
Into(G, x, v) == RSum([k \in 1..Len(G.arcs) |-> IF G.arcs[k][2] = v THEN x[k] ELSE R0])
Net(G, x, v) == RSub(OutOf(G, x, v), Into(G, x, v))
Conserves(G, x, s, t) == \A v \in V(G) \ {s, t} : RIsZero(Net(G, x, v))
Within(G, x) == \A k \in 1..Len(G.arcs) : RSign(x[k]) >= 0 /\ RLe(x[k], RI(G.arcs[k][3]))
PathCost(G, x) == RSum([k \in 1..Len(G.arcs) |-> RMul(RI(G.arcs[k][3]), x[k])])
=============================================================================
