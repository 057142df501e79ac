------------------------------ MODULE MpsTrace ------------------------------
(***************************************************************************)
(* Recorded imports of documents, against Mps.  The machine reads each     *)
(* document line by line; the document's verdict and program then decide   *)
(* what importing must have answered.  Also single numerals.               *)
(***************************************************************************)
EXTENDS Mps, GeneralChecks, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, doc, stage
vars == <<t, l, doc, stage>>
Tr == Traces[t]
Tag == CASE Tr.mode = "free" -> "C12" [] Tr.mode = "fixed" -> "C13" [] Tr.mode = "corrupt" -> "C14"
         [] Tr.mode = "garbage" -> "C14" [] Tr.mode = "solve" -> "C08" [] OTHER -> "C15"

\* what was imported: the events of taking it through the pipeline
EventChecks(P, e) ==
    CASE e.ev = "panic" -> <<<<FALSE, "ANY", e.step \o " panics: " \o e.msg>>>>
      [] e.ev = "rep" ->
            IF ~RepNames(P, e) THEN <<<<FALSE, Tag, "names in a solution">>>>
            ELSE LET R == TLCEval(RepOf(P, e))
                 IN  IF ~RepSizes(R) THEN <<<<FALSE, Tag, "sizes of the representation">>>>
                     ELSE ExactChecks(P, R, e, FALSE, FALSE, Tag, Tr.id)
      [] e.ev = "presolve" -> IF e.res = "open" THEN <<>>
                              ELSE Claim(P, e, Tag, "presolve", TLCEval(Answer(P)), LAMBDA x : Stated(P, x))
      [] e.ev = "solve" -> Claim(P, e, Tag, "solve", TLCEval(Answer(P)), LAMBDA x : Minimised(P, x))
      [] OTHER -> <<>>
RECURSIVE AllEvents(_, _)
AllEvents(P, k) == IF k > Tr.nev THEN <<>> ELSE TLCEval(EventChecks(P, Tr.events[k])) \o AllEvents(P, k + 1)

DocChecks(d) ==
    LET v == TLCEval(Verdict(d))
    IN  << <<Tr.res # "panic", "ANY", "importing panics: " \o Tr.msg>>,
           <<v = "reject" => Tr.res # "ok", Tag, "accepted, but: " \o (IF d.bad = "" THEN "incomplete or contradictory" ELSE d.bad)>>,
           <<v = "accept" => Tr.res # "error", Tag, "rejected, but it is well-formed: " \o Tr.msg>>,
           <<~Tr.unstable, Tag, "importing twice differs">> >>
        \o (IF v \in {"accept", "may"} /\ Tr.res = "ok" THEN LET P == TLCEval(Program(d)) IN AllEvents(P, 1) ELSE <<>>)

NumeralChecks ==
    << <<Tr.res # "panic", "ANY", "reading a numeral panics: " \o Tr.msg>>,
       <<Tr.res = "ok" => IsNumeral(Tr.text) \/ IsScientific(Tr.text), "C15", "not a numeral, but accepted">>,
       <<(IsNumeral(Tr.text) /\ Representable(Tr.text)) => Tr.res # "error", "C15", "a numeral is rejected">>,
       <<(Tr.res = "ok" /\ IsNumeral(Tr.text)) => REq(Tr.val, Numeral(Tr.text)), "C15", "a numeral is misread">>,
       <<(Tr.res = "ok" /\ ~IsNumeral(Tr.text) /\ IsScientific(Tr.text)) => REq(Tr.val, Scientific(Tr.text)), "C15", "a numeral is misread">> >>

(* Files: those of the two known kinds that can be read are imported, no others. *)
PathChecks ==
    LET good == Tr.kind = "file" /\ Tr.ext \in {"mps", "SIF"}
    IN  << <<Tr.res # "panic", "ANY", "importing a file panics: " \o Tr.msg>>,
           <<good => Tr.res = "ok", "C12", "a readable file is not imported: " \o Tr.msg>>,
           <<~good => Tr.res = "error", "C14", "a file that cannot be read, or is of no known kind, is imported">> >>
Checks == CASE Tr.mode = "numeral" -> NumeralChecks
            [] Tr.mode = "path" -> PathChecks
            [] Tr.mode = "garbage" -> << <<Tr.res # "panic", "ANY", "importing panics: " \o Tr.msg>> >>
            [] OTHER -> DocChecks(doc)

Init == t \in 1..Len(Traces) /\ l = 0 /\ doc = Start /\ stage = "reading"
ReadLine == /\ stage = "reading" /\ l < Len(Tr.lines)
            /\ l' = l + 1 /\ doc' = TLCEval(Read(doc, Tr.lay, Tr.lines[l + 1])) /\ UNCHANGED <<t, stage>>
Decide == /\ stage = "reading" /\ l = Len(Tr.lines)
          /\ LET v == TLCEval(Checks) IN ReportAt(Tr.id, l, v) /\ SayDone(Tr.id, Failing(v) # <<>>)
          /\ IF Tr.mode \in {"numeral", "garbage", "path"} THEN TRUE ELSE PrintT("VERDICT " \o Verdict(doc) \o " " \o Tr.mode \o " " \o Tr.lay \o " " \o doc.bad)
          /\ stage' = "done" /\ UNCHANGED <<t, l, doc>>
Next == ReadLine \/ Decide
Spec == Init /\ [][Next]_vars
=============================================================================
