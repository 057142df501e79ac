----------------------------- MODULE NetworkMC -----------------------------
(***************************************************************************)
(* The definitions of Network against two machines on all small graphs:    *)
(* labels corrected one arc at a time in any order end at the distances,   *)
(* and flows improved one unit at a time along any augmenting path end at  *)
(* the least cut.                                                          *)
(***************************************************************************)
EXTENDS Network
CONSTANTS N, Costs, Caps
CostsDef == -1..2
CostsFew == {0, 1, 3}
VARIABLES kind, w, d, f
vars == <<kind, w, d, f>>
Pairs == {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] # p[2]}
\* w gives each pair a value; 0 means no arc
RECURSIVE ArcSeq(_, _)
ArcSeq(g, S) == IF S = {} THEN <<>>
                ELSE LET p == CHOOSE p \in S : TRUE
                     IN  (IF g[p] = 0 THEN <<>> ELSE << <<p[1], p[2], g[p]>> >>) \o ArcSeq(g, S \ {p})
Graph == [n |-> N, arcs |-> ArcSeq(w, Pairs)]
S == 0
T == N - 1

Init ==
    \/ /\ kind = "sp" /\ w \in [Pairs -> Costs]
       /\ ~NegativeCycle([n |-> N, arcs |-> ArcSeq(w, Pairs)])
       /\ d = [v \in 0..(N - 1) |-> IF v = S THEN 0 ELSE Inf] /\ f = <<>>
    \/ kind = "flow" /\ w \in [Pairs -> Caps] /\ d = <<>> /\ f = [p \in Pairs |-> 0]
Correct ==
    /\ kind = "sp"
    /\ \E p \in Pairs : w[p] # 0 /\ d[p[1]] < Inf /\ d[p[1]] + w[p] < d[p[2]]
                        /\ d' = [d EXCEPT ![p[2]] = d[p[1]] + w[p]]
    /\ UNCHANGED <<kind, w, f>>
\* residual arcs and what one unit over them does
Residual(g) == {p \in Pairs : g[p] < w[p] \/ g[<<p[2], p[1]>>] > 0}
Push(g, p) == IF g[<<p[2], p[1]>>] > 0 THEN [g EXCEPT ![<<p[2], p[1]>>] = @ - 1] ELSE [g EXCEPT ![p] = @ + 1]
RECURSIVE PushAll(_, _)
PushAll(g, q) == IF Len(q) < 2 THEN g ELSE PushAll(Push(g, <<q[1], q[2]>>), Tail(q))
Paths == {<<S, T>>} \cup {<<S, v, T>> : v \in 1..(N - 2)} \cup {<<S>> \o p \o <<T>> : p \in {<<u, v>> : u \in 1..(N - 2), v \in 1..(N - 2)}}
Augment ==
    /\ kind = "flow"
    /\ \E q \in Paths : /\ \A k \in 1..(Len(q) - 1) : q[k] # q[k + 1] /\ <<q[k], q[k + 1]>> \in Residual(f)
                        /\ f' = PushAll(f, q)
    /\ UNCHANGED <<kind, w, d>>
Next == Correct \/ Augment
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Value == SumOver(f, {p \in Pairs : p[1] = S}) - SumOver(f, {p \in Pairs : p[2] = S})
LabelsRight == kind = "sp" => /\ \A v \in 0..(N - 1) : d[v] >= Distances(Graph, S)[v]
                              /\ (~ENABLED Correct) => d = Distances(Graph, S)
                              /\ \A v \in 0..(N - 1) : (~ENABLED Correct) => (d[v] < Inf <=> v \in Reach(Graph, {S}))
FlowRight == kind = "flow" => /\ \A p \in Pairs : f[p] >= 0 /\ f[p] <= w[p]
                              /\ \A v \in 1..(N - 2) : SumOver(f, {p \in Pairs : p[1] = v}) = SumOver(f, {p \in Pairs : p[2] = v})
                              /\ Value <= MinCut(Graph, S, T)
                              /\ (~ENABLED Augment) => Value = MinCut(Graph, S, T)
=============================================================================
