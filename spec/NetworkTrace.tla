---------------------------- MODULE NetworkTrace ----------------------------
(* What the code made of networks, against Network. *)
EXTENDS Network, Report, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, st
Tr == Traces[t]
G == [n |-> Tr.n, arcs |-> Tr.arcs]
E == Len(Tr.arcs)

\* a and what arithmetic with a direction answered: by reference and by value alternately
Arith(x, a) ==
    LET d == RI(a.d)
        want == <<RAdd(x, d), RAdd(x, d), RSub(x, d), RSub(x, d), RMul(x, d), RMul(x, d), RMul(x, d), RDiv(x, d), RDiv(x, d),
                  RAdd(x, d), RSub(x, d), RMul(x, d), RDiv(x, d), d, d>>
    IN  RVEq(a.v, want) /\ a.text = ToString(a.d)
Text(c, i) == IF \E k \in 1..Len(c) : c[k][1] = i THEN ToString(c[CHOOSE k \in 1..Len(c) : c[k][1] = i][2]) ELSE "0"

Incidence ==
    LET r == Tr.result
        R == ToSet(Tr.removed)
        D == ToSet(Tr.drop)
        col(k) == Column(Tr.arcs[k], R)
        counts == r.nv = Tr.n /\ r.ne = E
    IN  << <<counts, "C20", "numbers of vertices and arcs">> >> \o (IF ~counts THEN <<>> ELSE <<
           <<RVEq(r.values, [k \in 1..E |-> RI(Tr.arcs[k][3])]), "C20", "values of the arcs">>,
           <<\A k \in 1..E : r.cols[k] = col(k), "C20", "column of an arc">>,
           <<\A k \in 1..E : r.seen[k] = col(k) /\ r.moved[k] = col(k), "C20", "iteration over a column">>,
           <<\A k \in 1..E : r.dropped[k] = DropRows(col(k), D), "C20", "column with rows removed">>,
           <<\A k \in 1..E : r.dropped[k] = DropRows(col(k), D), "C11", "column of an arc with rows removed">>,
           <<\A k \in 1..E : r.texts[k] = [i \in 1..Len(r.texts[k]) |-> Text(col(k), i - 1)], "C20", "entries as text">>,
           <<\A i \in 1..Len(r.unit) : r.unit[i] = <<<<i - 1, 1>>>>, "C20", "unit column">>,
           <<\A k \in 1..Len(r.arith) : Arith(Tr.x, r.arith[k]), "C20", "arithmetic with directions">> >>)
ShortestPath ==
    LET r == Tr.result
        a == TLCEval(PathAnswer(G, Tr.s, Tr.t))
    IN  IF r.st # a.st THEN <<<<FALSE, "C19", "shortest path: answered " \o r.st \o ", is " \o a.st>>>>
        ELSE IF a.st # "opt" THEN <<>>
        ELSE IF Len(r.x) # E THEN <<<<FALSE, "C19", "shortest path: number of values">>>>
        ELSE << <<RVNonNeg(r.x) /\ Conserves(G, r.x, Tr.s, Tr.t), "C19", "shortest path: not a flow">>,
                <<REq(Net(G, r.x, Tr.s), R1) /\ REq(Net(G, r.x, Tr.t), RI(-1)), "C19", "shortest path: not one unit from source to sink">>,
                <<REq(PathCost(G, r.x), RI(a.val)), "C19", "shortest path: not shortest">> >>
MaxFlow ==
    LET r == Tr.result
    IN  IF r.st # "opt" THEN <<<<FALSE, "C19", "maximum flow: answered " \o r.st>>>>
        ELSE IF Len(r.x) # 2 * E THEN <<<<FALSE, "C19", "maximum flow: number of values">>>>
        ELSE LET x == SubSeq(r.x, 1, E)
             IN  << <<Within(G, x), "C19", "maximum flow: capacities">>,
                    <<\A k \in 1..E : REq(RAdd(x[k], r.x[E + k]), RI(Tr.arcs[k][3])), "C19", "maximum flow: remaining capacity">>,
                    <<Conserves(G, x, Tr.s, Tr.t), "C19", "maximum flow: conservation">>,
                    <<REq(Net(G, x, Tr.s), RI(MinCut(G, Tr.s, Tr.t))), "C19", "maximum flow: not maximal">> >>
Judge == IF Tr.result.st = "panic" THEN <<<<FALSE, "ANY", "panic: " \o Tr.result.msg>>>>
         ELSE IF Tr.result.st = "cap" THEN <<<<FALSE, "ANY", "too many basis changes">>>>
         ELSE CASE Tr.kind = "inc" -> Incidence [] Tr.kind = "sp" -> ShortestPath [] Tr.kind = "flow" -> MaxFlow

Init == t \in 1..Len(Traces) /\ st = "asked"
Answer == /\ st = "asked"
          /\ LET v == TLCEval(Judge) IN ReportAt(Tr.id, 1, v) /\ st' = IF Failing(v) = <<>> THEN "answered" ELSE "rejected"
          /\ UNCHANGED t
Finish == /\ st \in {"answered", "rejected"} /\ SayDone(Tr.id, st = "rejected") /\ st' = "done" /\ UNCHANGED t
Next == Answer \/ Finish
Spec == Init /\ [][Next]_<<t, st>>
=============================================================================
