-------------------------- MODULE GeneralFormTrace --------------------------
(***************************************************************************)
(* What presolving, standardising, scaling and solving made of stated      *)
(* problems, against GeneralForm.  A problem moves through the stages      *)
(*    stated -> presolved -> [scaled ->] represented -> answered           *)
(* and may be closed by presolving; the recorded events must be such a     *)
(* behaviour and each must say the truth about the stated problem.         *)
(***************************************************************************)
EXTENDS GeneralChecks, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, stage, bad
vars == <<t, l, stage, bad>>
Tr == Traces[t]
P == Tr.P
\* the property that owns the representation
Tag == IF Tr.scaled THEN "C09" ELSE IF Tr.presolved THEN "C06" ELSE "C07"

PresolveChecks(e) ==
    IF e.res = "open" THEN <<>>
    ELSE Claim(P, e, IF Tr.mode = "solve" THEN "C08" ELSE "C06", "presolve", TLCEval(Answer(P)), LAMBDA x : Stated(P, x))
SolveChecks(e) == Claim(P, e, "C08", "solve", TLCEval(Answer(P)), LAMBDA x : Minimised(P, x))
ScaleChecks(e) == << <<e.restored, "C09", "scaling back does not restore the problem">>,
                     <<e.repeatable, "C09", "scaling the same problem twice differs">> >>

\* too large for the oracle
Wide == Tr.mode \in {"wide", "widescale"}
Affine == \A k \in 1..Tr.nev : Tr.events[k].ev # "presolve"
RepChecks(e) ==
    IF ~RepNames(P, e) THEN <<<<FALSE, Tag, "names in a solution">>>>
    ELSE
    LET R == TLCEval(RepOf(P, e))
        S == TLCEval(Std(P))
        FP == TLCEval(Feasible(S))
        F == TLCEval(Feasible(Sys(R)))
        a == TLCEval(MinOver(S, FP, MinCost(P)))
        q == TLCEval(IF F.ok THEN Minimise(F, R.c) ELSE [st |-> "infeasible"])
        same(c) == SameCosts(P, R, Tr.scaled)
        sizes == RepSizes(R)
        pt(k) == LET x == ByName(P, e.points[k].names, e.points[k].x)
                 IN  /\ StdSatisfies(Sys(R), e.points[k].y)
                     => Satisfies(P, x) /\ (Tr.first \/ REq(e.points[k].val, Minimised(P, x)))
    IN  IF ~sizes THEN <<<<FALSE, Tag, "sizes of the representation">>>>
        ELSE IF Wide THEN ExactChecks(P, R, e, Tr.scaled, Tr.first, Tag, Tr.id)
        ELSE << <<a.st = q.st, Tag, "the problem is " \o a.st \o ", its representation is " \o q.st>>,
                <<RVNonNeg(R.b), Tag, "right-hand side is negative">>,
                <<Affine => same(R.c), Tag, "costs of the representation">>,
                <<Affine => ValuesOk(P, R, e, Tr.first), Tag, "reported objective value">>,
                <<Affine => MixOk(P, R, e), Tag, "map of a point back to the problem">>,
                <<\A k \in 1..Len(e.points) : pt(k), Tag, "a solution of the representation is not mapped back to one of the problem">>,
                <<(a.st = q.st /\ a.st = "opt" /\ ~Tr.scaled) =>
                    (Affine => REq(RAdd(RConst(R, MinCost(P)), q.val), a.val)), Tag, "optimal value">>,
                <<(a.st = q.st /\ a.st # "infeasible" /\ Affine) => Sound(P, R, F), Tag, "the representation allows what the problem forbids">>,
                <<(a.st = q.st /\ a.st # "infeasible" /\ Affine) => SameSet(P, R, S, FP, F), Tag, "the representation forbids what the problem allows">>,
                \* after presolving: the first point minimises the representation
                <<(~Affine /\ a.st = "opt" /\ q.st = "opt" /\ Len(e.points) > 0 /\ StdSatisfies(Sys(R), e.points[1].y)
                     /\ REq(RDot(R.c, e.points[1].y), q.val))
                  => REq(Stated(P, ByName(P, e.points[1].names, e.points[1].x)), Best(P, a)),
                  Tag, "an optimum of the representation is not one of the problem">> >>

Checks(e) ==
    CASE e.ev = "panic" -> <<<<FALSE, "ANY", e.step \o " panics: " \o e.msg>>>>
      [] e.ev = "presolve" -> PresolveChecks(e)
      [] e.ev = "scale" -> ScaleChecks(e)
      [] e.ev = "rep" -> RepChecks(e)
      [] e.ev = "solve" -> SolveChecks(e)
Follows(s, e) ==
    \/ e.ev = "panic" /\ s # "closed"
    \/ e.ev = "presolve" /\ s \in {"stated", "presolved"} /\ Tr.presolved
    \/ e.ev = "scale" /\ s = (IF Tr.presolved THEN "presolved" ELSE "stated")
    \/ e.ev = "rep" /\ s \in {"stated", "presolved", "scaled"}
    \/ e.ev = "solve" /\ s \in {"stated", "presolved", "scaled", "represented"}
After(e) == CASE e.ev = "presolve" -> IF e.res = "open" THEN "presolved" ELSE "closed"
              [] e.ev = "scale" -> "scaled" [] e.ev = "rep" -> "represented"
              [] OTHER -> "closed"

Init == t \in 1..Len(Traces) /\ l = 0 /\ stage = "stated" /\ bad = FALSE
Step == /\ l < Len(Tr.events) /\ stage # "done"
        /\ LET e == Tr.events[l + 1]
               v == TLCEval(IF l = 0 /\ ~Wide /\ ~AnswerSound(P)
                            THEN <<<<PrintT("SPECERROR " \o ToString(Tr.id)), "ANY", "">>>>
                            ELSE IF Follows(stage, e) THEN Checks(e)
                            ELSE <<<<FALSE, "ANY", e.ev \o " cannot follow here">>>>)
           IN  ReportAt(Tr.id, l + 1, v) /\ bad' = (bad \/ Failing(v) # <<>>) /\ stage' = After(e)
        /\ l' = l + 1 /\ UNCHANGED t
Finish == /\ l = Len(Tr.events) /\ stage # "done" /\ SayDone(Tr.id, bad) /\ stage' = "done" /\ UNCHANGED <<t, l, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
