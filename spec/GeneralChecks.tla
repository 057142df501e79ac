---------------------------- MODULE GeneralChecks ----------------------------
(* What must hold of recorded answers about, and representations of, a     *)
(* problem P in general form.                                              *)
EXTENDS GeneralForm, Report

\* A claim (res, names, x, val) that P is solved; value(x) is what val should be
Claim(P, e, tag, what, a, value(_)) ==
    IF e.res # a.st THEN <<<<FALSE, tag, what \o ": says " \o e.res \o " but the problem is " \o a.st>>>>
    ELSE IF a.st # "opt" THEN <<>>
    ELSE IF ~NamesOk(P, e.names) THEN <<<<FALSE, tag, what \o ": names in the solution">>>>
    ELSE LET x == TLCEval(ByName(P, e.names, e.x))
         IN  << <<Satisfies(P, x), tag, what \o ": solution violates a row or bound">>,
                <<REq(Stated(P, x), Best(P, a)), tag, what \o ": solution is not optimal">>,
                <<REq(e.val, value(x)), tag, what \o ": objective value is not that of the solution">> >>

\* the recorded representation e
RepNames(P, e) == /\ NamesOk(P, e.zero.names)
                  /\ \A k \in 1..Len(e.units) : NamesOk(P, e.units[k].names)
                  /\ \A k \in 1..Len(e.mix) : NamesOk(P, e.mix[k].names)
RepOf(P, e) == [A |-> e.A, b |-> e.b, n |-> e.n, c |-> e.c, nv |-> e.nv,
                at0 |-> ByName(P, e.zero.names, e.zero.x),
                unit |-> [k \in 1..Len(e.units) |-> ByName(P, e.units[k].names, e.units[k].x)]]
\* The map back is affine: the recorded images of any points follow from those of zero and the units.
MixOk(P, R, e) ==
    \A i \in 1..Len(e.mix) :
        LET x == TLCEval(ByName(P, e.mix[i].names, e.mix[i].x))
            slope == TLCEval([k \in 1..R.nv |-> Slope(R, k)])
        IN  /\ \A j \in 1..P.n : REq(x[j], RAdd(R.at0[j], RDot(e.mix[i].v, [k \in 1..R.nv |-> slope[k][j]])))
(* Reported objective values.  Solutions of a problem that was scaled as it is stated report those of the scaled *)
(* problem (first): of these the part that depends on the solution has some positive factor.                     *)
ValuesOk(P, R, e, first) ==
    LET x == TLCEval(<<R.at0>> \o R.unit \o [i \in 1..Len(e.mix) |-> ByName(P, e.mix[i].names, e.mix[i].x)])
        v == <<e.zero.val>> \o [k \in 1..Len(e.units) |-> e.units[k].val] \o [i \in 1..Len(e.mix) |-> e.mix[i].val]
        fixed == RMul(Sense(P), P.fixed)
        w == TLCEval([i \in 1..Len(x) |-> RDot(MinCost(P), x[i])])
        u == TLCEval([i \in 1..Len(x) |-> RSub(v[i], fixed)])
    IN  IF first THEN \A i \in 1..Len(x) : RSign(u[i]) = RSign(w[i]) /\ \A k \in 1..i : REq(RMul(u[i], w[k]), RMul(u[k], w[i]))
        ELSE RVEq(u, w)
RepSizes(R) == Len(R.c) = R.n /\ Len(R.b) = Len(R.A) /\ R.nv <= R.n
\* scaled: up to a positive factor
SameCosts(P, R, scaled) ==
    LET dir == TLCEval(RDir(R, MinCost(P)))
    IN  IF scaled THEN (\A i, k \in 1..R.n : REq(RMul(R.c[i], dir[k]), RMul(R.c[k], dir[i])) /\ RSign(R.c[i]) = RSign(dir[i]))
        ELSE RVEq(R.c, dir)
\* without an oracle: representation and problem are made of the same half-spaces
ExactChecks(P, R, e, scaled, first, tag, id) ==
    LET G == TLCEval(RepHalfSpaces(P, R))
    IN  << <<RVNonNeg(R.b), tag, "right-hand side is negative">>,
           <<SameCosts(P, R, scaled), tag, "costs of the representation">>,
           <<ValuesOk(P, R, e, first), tag, "reported objective value">>,
           <<MixOk(P, R, e), tag, "map of a point back to the problem">>,
           <<~G.ok => PrintT("UNRECOGNISED " \o ToString(id)), tag, "">>,
           <<G.ok => AllIn(HalfSpaces(P), G.h), tag, "a row or bound is missing in the representation">>,
           <<G.ok => AllIn(G.h, HalfSpaces(P)), tag, "the representation has a row or bound that the problem has not">> >>
=============================================================================
