-------------------------------- MODULE MpsMC --------------------------------
(***************************************************************************)
(* All statements about a problem with one row and one column, each laid   *)
(* out in both layouts and read line by line by two copies of the machine. *)
(* Both copies must agree after every line, and what was read must be what *)
(* the tables of the format say: Meaning.  The documents are printed, to   *)
(* be imported by the code.                                                *)
(***************************************************************************)
EXTENDS Mps, Json
CONSTANTS MaxBounds, Wide, Emit

Types == {"L", "G", "E"}
Values == {"", "3", "-2"}
Widths == {"", "2", "-2.5", "0"}
B(type, text) == [type |-> type, text |-> text]
BoundEntries == {B("LO", "-1"), B("LO", "2"), B("UP", "1"), B("UP", "-3"), B("FX", "2"), B("LI", "-4"), B("UI", "2.0")}
                \cup {B(type, "") : type \in WithoutNumber}
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* rows with all their details and few bounds, or bounds with few details of rows
Rows == [type : Types, rhs : Values, rhs2 : {"", "3", "4"}, rng : Widths]
Statements ==
    {[row |-> r, bnd |-> b, max |-> FALSE] : r \in Rows, b \in IF Wide THEN Upto(BoundEntries, 1) ELSE {<<>>, <<B("UP", "1")>>}}
    \cup {[row |-> r, bnd |-> b, max |-> m] :
            r \in {[type |-> y, rhs |-> "3", rhs2 |-> "", rng |-> g] : y \in {"L", "G"}, g \in {"", "2"}},
            b \in Upto(BoundEntries, MaxBounds), m \in {TRUE, FALSE}}

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(s \o " ", n)
RECURSIVE Place(_, _, _)
Starts == <<2, 5, 15, 25, 40, 50>>
Place(f, k, s) == IF k > 6 THEN s ELSE Place(f, k + 1, IF f[k] = "" THEN s ELSE Pad(s, Starts[k] - 1) \o f[k])
RECURSIVE Join(_, _, _)
Join(f, k, s) == IF k > 6 THEN s ELSE Join(f, k + 1, IF f[k] = "" THEN s ELSE s \o " " \o f[k])
Line(f, lay) == IF lay = "fixed" THEN Place(f, 1, " ") ELSE Join(f, 1, "")

Opt(c, q) == IF c THEN q ELSE <<>>
Document(s, lay) ==
    LET r == s.row
        pairs == r.rhs # "" /\ r.rng # ""    \* both costs and row entry on one line
    IN  <<"NAME          MC">>
        \o Opt(s.max, <<"OBJSENSE", "  MAX">>)
        \o <<"ROWS", Line(<<"N", "COST", "", "", "", "">>, lay), Line(<<r.type, "R1", "", "", "", "">>, lay), "COLUMNS">>
        \o (IF pairs THEN <<Line(<<"", "X", "COST", "1", "R1", "-2.5">>, lay)>>
            ELSE <<Line(<<"", "X", "R1", "-2.5", "", "">>, lay), Line(<<"", "X", "COST", "1", "", "">>, lay)>>)
        \o Opt(r.rhs # "" \/ r.rhs2 # "", <<"RHS">>)
        \o Opt(r.rhs # "", <<Line(<<"", "B1", "R1", r.rhs, "", "">>, lay)>>)
        \o Opt(r.rhs2 # "", <<Line(<<"", "B2", "R1", r.rhs2, "", "">>, lay)>>)
        \o Opt(r.rng # "", <<"RANGES", Line(<<"", "G", "R1", r.rng, "", "">>, lay)>>)
        \o Opt(s.bnd # <<>>, <<"BOUNDS">> \o [k \in 1..Len(s.bnd) |-> Line(<<s.bnd[k].type, "BND", "X", s.bnd[k].text, "", "">>, lay)])
        \o <<"ENDATA">>

---------------------------------------------------------------------------
(* What the tables of the format say about a statement *)
Num(text) == CASE text = "3" -> RI(3) [] text = "-2" -> RI(-2) [] text = "2" -> RI(2) [] text = "2.0" -> RI(2)
               [] text = "-2.5" -> <<-5, 2>> [] text = "0" -> R0 [] text = "4" -> RI(4) [] text = "-1" -> RI(-1)
               [] text = "1" -> R1 [] text = "-3" -> RI(-3) [] text = "-4" -> RI(-4)
Abs(v) == IF RSign(v) < 0 THEN RNeg(v) ELSE v
\* the set of right-hand sides; empty means zero
Sides(r) == LET q == {x \in {r.rhs, r.rhs2} : x # ""} IN IF q = {} THEN {R0} ELSE {Num(x) : x \in q}
LowestOf(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
HighestOf(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
Table(r) ==     \* [ok, lo, hi]
    LET S == Sides(r)
        one == Cardinality(S) = 1
        b == LowestOf(S)
        c == HighestOf(S)
        g == Num(r.rng)
    IN  IF r.rng = ""
        THEN CASE r.type = "L" -> [ok |-> TRUE, lo |-> None, hi |-> <<b>>]
               [] r.type = "G" -> [ok |-> TRUE, lo |-> <<c>>, hi |-> None]
               [] OTHER -> [ok |-> one, lo |-> <<b>>, hi |-> <<b>>]
        ELSE CASE r.type = "L" -> [ok |-> one, lo |-> <<RSub(b, Abs(g))>>, hi |-> <<b>>]
               [] r.type = "G" -> [ok |-> one, lo |-> <<b>>, hi |-> <<RAdd(b, Abs(g))>>]
               [] OTHER -> [ok |-> one, lo |-> <<LowestOf({b, RAdd(b, g)})>>, hi |-> <<HighestOf({b, RAdd(b, g)})>>]
Kinds(q) == {q[k].type : k \in 1..Len(q)}
Range_(q) ==    \* [ok, lo, hi]
    LET at(types) == {Num(q[k].text) : k \in {k \in 1..Len(q) : q[k].type \in types}}
        lows == at({"LO", "LI", "FX"}) \cup (IF Kinds(q) \cap {"PL", "BV"} # {} THEN {R0} ELSE {})
        ups == at({"UP", "UI", "FX"}) \cup (IF "MI" \in Kinds(q) THEN {R0} ELSE {}) \cup (IF "BV" \in Kinds(q) THEN {R1} ELSE {})
        lo == IF lows # {} THEN <<HighestOf(lows)>> ELSE IF Kinds(q) \cap {"MI", "FR"} # {} THEN None ELSE <<R0>>
        hi == IF ups # {} THEN <<LowestOf(ups)>> ELSE None
    IN  [ok |-> /\ ~("FR" \in Kinds(q) /\ Kinds(q) # {"FR"})
                /\ (Has(lo) /\ Has(hi)) => RLe(Val(lo), Val(hi)),
         lo |-> lo, hi |-> hi]
SameOpt(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : REq(a[k], b[k])
Meaning(s, d) ==
    LET T == Table(s.row)
        V == Range_(s.bnd)
        P == Program(d)
    IN  IF ~(T.ok /\ V.ok) THEN Verdict(d) = "reject"
        ELSE /\ Verdict(d) = "accept"
             /\ P.n = 1 /\ P.max = s.max /\ P.names = <<"X">> /\ RIsZero(P.fixed)
             /\ REq(P.cost[1], R1) /\ SameOpt(P.lo[1], V.lo) /\ SameOpt(P.hi[1], V.hi)
             /\ Len(P.rows) = 1 /\ REq(P.rows[1].a[1], <<-5, 2>>)
             /\ SameOpt(P.rows[1].lo, T.lo) /\ SameOpt(P.rows[1].hi, T.hi)

---------------------------------------------------------------------------
VARIABLES s, l, free, fixed
vars == <<s, l, free, fixed>>
Length == Len(Document(s, "free"))
Init == s \in Statements /\ l = 0 /\ free = Start /\ fixed = Start
Next == /\ l < Length
        /\ l' = l + 1
        /\ free' = TLCEval(Read(free, "free", Document(s, "free")[l']))
        /\ fixed' = TLCEval(Read(fixed, "fixed", Document(s, "fixed")[l']))
        /\ UNCHANGED s
        /\ (Emit /\ l' = Length) => /\ PrintT("PLAN " \o ToJson([lay |-> "free", lines |-> Document(s, "free")]))
                                    /\ PrintT("PLAN " \o ToJson([lay |-> "fixed", lines |-> Document(s, "fixed")]))
Spec == Init /\ [][Next]_vars

Agree == free = fixed
Tables == l = Length => Meaning(s, free)
\* a document is never complete before its last line
Incomplete == l < Length => Verdict(free) # "accept"
=============================================================================
