-------------------------------- MODULE Mps ---------------------------------
(***************************************************************************)
(* The language of MPS files, as a machine that reads a document line by   *)
(* line, and the linear program a document denotes.                        *)
(*                                                                         *)
(* State: the section being read and what was declared so far.  Three      *)
(* flags say how far the document departs from the format:                 *)
(*   bad  it violates the format: it must be rejected;                     *)
(*   odd  it departs from it in a way about which nothing is promised;     *)
(*   may  it needs something that an importer may decline (a numeral too   *)
(*        long, an objective constant), but may not misread.               *)
(* A document that is neither bad nor odd denotes the program Program(d).  *)
(*                                                                         *)
(* Lines come in two layouts: in the free layout fields are words; in the  *)
(* fixed layout they are at given columns and may contain blanks.          *)
(***************************************************************************)
EXTENDS Text, LP

Start == [sec |-> "start", max |-> FALSE, cost |-> "", hascost |-> FALSE,
          rows |-> <<>>,      \* [name, type]
          cols |-> <<>>,      \* [name, a: <<row name, value>>*]
          open |-> FALSE,     \* the last column may still get entries
          rhs |-> <<>>, rng |-> <<>>,   \* [set, row, val]
          bnd |-> <<>>,       \* [type, col, val]
          int |-> FALSE, set |-> "", sets |-> {},
          bad |-> "", odd |-> FALSE, may |-> FALSE]
Bad(d, why) == IF d.bad = "" THEN [d EXCEPT !.bad = why] ELSE d
Odd(d) == [d EXCEPT !.odd = TRUE]
OddIf(d, c) == IF c THEN Odd(d) ELSE d
May(d) == [d EXCEPT !.may = TRUE]

RowNames(d) == {d.rows[i].name : i \in 1..Len(d.rows)}
ColNames(d) == {d.cols[j].name : j \in 1..Len(d.cols)}
Known(d, name) == name \in RowNames(d) \/ (d.hascost /\ name = d.cost)

---------------------------------------------------------------------------
(* Fields.  f = [n, 1, .., 6] of the fields with a number of words for the *)
(* free layout; "" is an absent field; ok: nothing is where it shouldn't.  *)

Gaps == <<1, 4, 13, 14, 23, 24, 37, 38, 39, 48, 49>>
FixedFields(s) ==
    [f |-> <<Trim(Columns(s, 2, 3)), TrimEnd(Columns(s, 5, 12)), TrimEnd(Columns(s, 15, 22)), Trim(Columns(s, 25, 36)),
             TrimEnd(Columns(s, 40, 47)), Trim(Columns(s, 50, 61))>>,
     ok |-> Len(s) <= 61 /\ \A k \in 1..Len(Gaps) : Columns(s, Gaps[k], Gaps[k]) \in {"", Blank}]
\* names that start with a blank: not promised
Tidy(F) == F.ok /\ \A k \in {2, 3, 5} : F.f[k] = Trim(F.f[k])

---------------------------------------------------------------------------
(* One entry of each section *)

RowTypes == {"N", "L", "G", "E"}
AddRow(d, type, name) ==
    IF type \notin RowTypes THEN Bad(d, "row type")
    ELSE IF name = "" THEN Bad(d, "row name")
    ELSE IF Known(d, name) THEN Bad(d, "duplicate row")
    ELSE IF type = "N" THEN (IF d.hascost THEN Odd(d) ELSE [d EXCEPT !.cost = name, !.hascost = TRUE])
    ELSE [d EXCEPT !.rows = Append(@, [name |-> name, type |-> type])]

\* text is a numeral: go on with its value
WithValue(d, text, next(_, _)) ==
    IF IsScientific(text) THEN next(May(d), TLCEval(Scientific(text)))
    ELSE IF ~IsNumeral(text) THEN Bad(d, "numeral")
    ELSE next(IF Representable(text) THEN d ELSE May(d), TLCEval(Numeral(text)))

AddEntry(d, name, row, text) ==
    LET old == d.open /\ d.cols[Len(d.cols)].name = name
        e == IF old THEN d ELSE [d EXCEPT !.cols = Append(@, [name |-> name, a |-> <<>>]), !.open = TRUE]
        k == Len(e.cols)
    IN  IF ~old /\ name \in ColNames(d) THEN Bad(d, "duplicate column")
        ELSE IF ~Known(d, row) THEN Bad(d, "unknown row")
        ELSE IF \E i \in 1..Len(e.cols[k].a) : e.cols[k].a[i][1] = row THEN Bad(d, "duplicate entry")
        ELSE WithValue(e, text, LAMBDA x, v : [x EXCEPT !.cols[k].a = Append(@, <<row, v>>)])

\* a set name that was left is used again: not promised
UseSet(d, set) == IF set = d.set THEN d
                  ELSE [d EXCEPT !.set = set, !.odd = @ \/ (set \in d.sets), !.sets = @ \cup {set}]
AddRhs(d, set, row, text) ==
    LET e == UseSet(d, set)
    IN  IF ~Known(d, row) THEN Bad(e, "unknown row")
        ELSE IF \E i \in 1..Len(e.rhs) : e.rhs[i].set = set /\ e.rhs[i].row = row THEN Bad(e, "duplicate right-hand side")
        ELSE WithValue(e, text, LAMBDA x, v : [(IF row = d.cost THEN May(x) ELSE x) EXCEPT !.rhs = Append(@, [set |-> set, row |-> row, val |-> v])])
AddRange(d, set, row, text) ==
    LET e == UseSet(d, set)
    IN  IF ~Known(d, row) THEN Bad(e, "unknown row")
        ELSE IF row = d.cost THEN Odd(e)
        ELSE IF \E i \in 1..Len(e.rng) : e.rng[i].row = row THEN Bad(e, "duplicate range")
        ELSE WithValue(e, text, LAMBDA x, v : [x EXCEPT !.rng = Append(@, [set |-> set, row |-> row, val |-> v])])
WithNumber == {"LO", "UP", "FX", "LI", "UI"}
WithoutNumber == {"FR", "MI", "PL", "BV"}
AddBound(d, type, set, col, text) ==
    LET e == UseSet(d, set)
    IN  IF type = "SC" THEN Odd(e)
        ELSE IF type \notin WithNumber \cup WithoutNumber THEN Bad(e, "bound type")
        ELSE IF col \notin ColNames(d) THEN Bad(e, "unknown column")
        ELSE IF type \in WithoutNumber
             THEN [OddIf(e, text # "") EXCEPT !.bnd = Append(@, [type |-> type, col |-> col, val |-> R0])]
        ELSE WithValue(e, text, LAMBDA x, v : [x EXCEPT !.bnd = Append(@, [type |-> type, col |-> col, val |-> v])])

---------------------------------------------------------------------------
(* One line of each section: w the words, F the fields of the line *)

RowLine(d, lay, w, F) ==
    IF lay = "free"
    THEN IF Len(w) < 2 THEN Bad(d, "too few fields") ELSE AddRow(OddIf(d, Len(w) > 2), w[1], w[2])
    ELSE AddRow(OddIf(d, \E k \in 3..6 : F.f[k] # ""), F.f[1], F.f[2])

MarkerWord == "'MARKER'"
Marker(d, kind) ==
    IF kind \notin {"'INTORG'", "'INTEND'"} THEN Bad(d, "marker")
    ELSE [OddIf(d, d.int = (kind = "'INTORG'")) EXCEPT !.int = (kind = "'INTORG'"), !.open = FALSE]

\* fields 2, 3, 4 and, if there are any, 5, 6
Pairs(d, lay, w, F, add(_, _, _, _)) ==
    IF lay = "free"
    THEN CASE Len(w) = 3 -> add(d, w[1], w[2], w[3])
           [] Len(w) = 5 -> add(add(d, w[1], w[2], w[3]), w[1], w[4], w[5])
           [] Len(w) \in {0, 1} -> Bad(d, "too few fields")
           [] OTHER -> IF d.sec = "COLUMNS" THEN Bad(d, "number of fields") ELSE Odd(d)
    ELSE LET e == OddIf(d, F.f[1] # "" \/ F.f[2] = "")
         IN  IF F.f[3] = "" \/ F.f[4] = "" THEN Bad(d, "too few fields")
             ELSE IF (F.f[5] = "") # (F.f[6] = "") THEN Bad(d, "number of fields")
             ELSE IF F.f[5] = "" THEN add(e, F.f[2], F.f[3], F.f[4])
             ELSE add(add(e, F.f[2], F.f[3], F.f[4]), F.f[2], F.f[5], F.f[6])

ColumnLine(d, lay, w, F) ==
    IF lay = "free" /\ Len(w) >= 2 /\ w[2] = MarkerWord
    THEN IF Len(w) = 3 THEN Marker(d, w[3]) ELSE Odd(d)
    ELSE IF lay = "fixed" /\ F.f[3] = MarkerWord
    THEN IF F.f[4] = "" /\ F.f[6] = "" /\ F.f[1] = "" THEN Marker(d, F.f[5]) ELSE Odd(d)
    ELSE Pairs(d, lay, w, F, AddEntry)

BoundLine(d, lay, w, F) ==
    IF lay = "free"
    THEN IF Len(w) < 3 THEN Bad(d, "too few fields")
         ELSE LET text == IF Len(w) > 3 THEN w[4] ELSE ""
              IN  IF Len(w) = 3 /\ w[1] \in WithNumber THEN Odd(d)   \* perhaps without a set name
                  ELSE AddBound(OddIf(d, Len(w) > 4), w[1], w[2], w[3], text)
    ELSE AddBound(OddIf(d, F.f[2] = "" \/ F.f[5] # "" \/ F.f[6] # ""), F.f[1], F.f[2], F.f[3], F.f[4])

---------------------------------------------------------------------------
(* The machine *)

Headers == {"NAME", "OBJSENSE", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA"}
After(sec) == CASE sec = "NAME" -> {"OBJSENSE", "ROWS"}
                [] sec = "SENSE" -> {"ROWS"}
                [] sec = "ROWS" -> {"COLUMNS"}
                [] sec = "COLUMNS" -> {"RHS", "RANGES", "BOUNDS", "ENDATA"}
                [] sec = "RHS" -> {"RANGES", "BOUNDS", "ENDATA"}
                [] sec = "RANGES" -> {"BOUNDS", "ENDATA"}
                [] sec = "BOUNDS" -> {"ENDATA"}
                [] OTHER -> {}

Header(d, w) ==
    IF w[1] \notin Headers THEN Bad(d, "section")
    ELSE IF Len(w) > 1 THEN Odd(d)
    ELSE IF d.sec = "OBJSENSE" THEN Bad(d, "direction")
    ELSE IF w[1] \notin After(d.sec) THEN (IF w[1] = "OBJSENSE" THEN Odd(d) ELSE Bad(d, "section order"))
    ELSE LET e == IF w[1] = "COLUMNS" /\ ~d.hascost THEN Bad(d, "no cost row") ELSE d
         IN  [e EXCEPT !.sec = w[1], !.set = "", !.sets = {}, !.open = FALSE]

IsComment(line) == LET a == SkipBlank(line, 1) IN a <= Len(line) /\ Char(line, a) = "*"

Direction(d, line, w) ==
    IF Len(w) = 1 /\ w[1] \in {"MAX", "MAXIMIZE", "MIN", "MINIMIZE"}
    THEN [OddIf(d, Columns(line, 1, 2) # "  " \/ Char(line, 3) = Blank) EXCEPT !.max = w[1] \in {"MAX", "MAXIMIZE"}, !.sec = "SENSE"]
    ELSE IF Len(w) = 1 THEN Bad(d, "direction") ELSE Odd(d)

Read(d, lay, line) ==
    IF d.bad # "" \/ d.odd \/ IsBlank(line) \/ IsComment(line) THEN d
    ELSE LET w == TLCEval(Words(line))
             F == TLCEval(IF lay = "fixed" THEN FixedFields(line) ELSE [f |-> <<>>, ok |-> TRUE])
             e == OddIf(d, lay = "fixed" /\ Char(line, 1) = Blank /\ ~Tidy(F))
         IN  CASE d.sec = "start" ->
                    IF w[1] # "NAME" THEN (IF Char(line, 1) = Blank \/ Columns(line, 1, 4) = "NAME" THEN Odd(d) ELSE Bad(d, "no name"))
                    ELSE IF Len(w) # 2 \/ Char(line, 1) = Blank THEN Odd(d) ELSE [d EXCEPT !.sec = "NAME"]
               [] d.sec = "ENDATA" -> Odd(d)
               [] Char(line, 1) # Blank -> Header(d, w)
               [] d.sec = "OBJSENSE" -> Direction(d, line, w)
               [] d.sec = "ROWS" -> RowLine(e, lay, w, F)
               [] d.sec = "COLUMNS" -> ColumnLine(e, lay, w, F)
               [] d.sec = "RHS" -> Pairs(e, lay, w, F, AddRhs)
               [] d.sec = "RANGES" -> Pairs(e, lay, w, F, AddRange)
               [] d.sec = "BOUNDS" -> BoundLine(e, lay, w, F)
               [] OTHER -> Bad(d, "entry outside a section")

---------------------------------------------------------------------------
(* The program *)

EntriesFor(q, row) == SelectSeq(q, LAMBDA e : e.row = row)
RECURSIVE Greatest(_, _, _), Least(_, _, _)
Greatest(q, i, acc) == IF i > Len(q) THEN acc ELSE Greatest(q, i + 1, RMax(acc, q[i].val))
Least(q, i, acc) == IF i > Len(q) THEN acc ELSE Least(q, i + 1, RMin(acc, q[i].val))
\* several right-hand sides: all hold
Contradiction(d) == \E i \in 1..Len(d.rows) :
    LET q == EntriesFor(d.rhs, d.rows[i].name)
    IN  /\ d.rows[i].type = "E" \/ EntriesFor(d.rng, d.rows[i].name) # <<>>
        /\ \E k \in 1..Len(q) : ~REq(q[k].val, q[1].val)
Rhs(d, r) == LET q == EntriesFor(d.rhs, r.name)
             IN  IF q = <<>> THEN R0
                 ELSE CASE r.type = "L" -> Least(q, 2, q[1].val) [] r.type = "G" -> Greatest(q, 2, q[1].val) [] OTHER -> q[1].val
Interval(d, r) ==
    LET b == Rhs(d, r)
        g == EntriesFor(d.rng, r.name)
        v == g[1].val
        w == IF RSign(v) < 0 THEN RNeg(v) ELSE v
    IN  IF g = <<>>
        THEN CASE r.type = "E" -> [lo |-> <<b>>, hi |-> <<b>>]
               [] r.type = "L" -> [lo |-> None, hi |-> <<b>>]
               [] OTHER -> [lo |-> <<b>>, hi |-> None]
        ELSE CASE r.type = "G" -> [lo |-> <<b>>, hi |-> <<RAdd(b, w)>>]
               [] r.type = "L" -> [lo |-> <<RSub(b, w)>>, hi |-> <<b>>]
               [] OTHER -> IF RSign(v) < 0 THEN [lo |-> <<RSub(b, w)>>, hi |-> <<b>>] ELSE [lo |-> <<b>>, hi |-> <<RAdd(b, w)>>]
Coefficient(c, row) == LET s == {i \in 1..Len(c.a) : c.a[i][1] = row}
                       IN  IF s = {} THEN R0 ELSE c.a[CHOOSE i \in s : TRUE][2]

BoundsOf(d, c) == SelectSeq(d.bnd, LAMBDA e : e.col = c.name)
OfType(q, types) == SelectSeq(q, LAMBDA e : e.type \in types)
\* The entries about a column all hold; MI and PL also say on which side of zero it is, and without an entry about
\* the lower side it is nonnegative.
Lower(q) ==
    LET s == OfType(q, {"LO", "LI", "FX", "PL", "BV"})      \* the value of PL and BV is zero
    IN  IF s # <<>> THEN <<Greatest(s, 2, s[1].val)>>
        ELSE IF OfType(q, {"MI", "FR"}) # <<>> THEN None ELSE <<R0>>
Upper(q) ==
    LET s == OfType(q, {"UP", "UI", "FX", "MI", "BV"})
        v(e) == IF e.type = "BV" THEN R1 ELSE e.val
        t == [i \in 1..Len(s) |-> [val |-> v(s[i])]]
    IN  IF s # <<>> THEN <<Least(t, 2, t[1].val)>> ELSE None
Crossing(d) == \E j \in 1..Len(d.cols) :
    LET q == BoundsOf(d, d.cols[j]) lo == Lower(q) hi == Upper(q)
    IN  \/ Has(lo) /\ Has(hi) /\ RLt(Val(hi), Val(lo))
        \/ OfType(q, {"FR"}) # <<>> /\ \E k \in 1..Len(q) : q[k].type # "FR"

Verdict(d) == IF d.odd THEN "any"
              ELSE IF d.bad # "" THEN "reject"
              ELSE IF d.sec # "ENDATA" THEN "reject"
              ELSE IF Contradiction(d) \/ Crossing(d) THEN "reject"
              ELSE IF Len(d.cols) = 0 \/ d.int THEN "any"
              ELSE IF d.may THEN "may" ELSE "accept"
Program(d) ==
    LET n == Len(d.cols)
    IN  [n |-> n, max |-> d.max,
         fixed |-> LET q == EntriesFor(d.rhs, d.cost) IN IF q = <<>> THEN R0 ELSE RNeg(q[1].val),
         cost |-> [j \in 1..n |-> Coefficient(d.cols[j], d.cost)],
         lo |-> [j \in 1..n |-> Lower(BoundsOf(d, d.cols[j]))],
         hi |-> [j \in 1..n |-> Upper(BoundsOf(d, d.cols[j]))],
         rows |-> [i \in 1..Len(d.rows) |->
                     LET I == Interval(d, d.rows[i])
                     IN  [a |-> [j \in 1..n |-> Coefficient(d.cols[j], d.rows[i].name)], lo |-> I.lo, hi |-> I.hi]],
         names |-> [j \in 1..n |-> d.cols[j].name]]
=============================================================================
