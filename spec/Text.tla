-------------------------------- MODULE Text --------------------------------
(* Text: characters, words, fields, and decimal numerals. *)
EXTENDS Rat, FiniteSets, TLC

Char(s, i) == SubSeq(s, i, i)
Blank == " "

\* the first position from i on with (without) a blank; Len(s) + 1 if there is none
RECURSIVE SkipBlank(_, _), SkipWord(_, _)
SkipBlank(s, i) == IF i > Len(s) \/ Char(s, i) # Blank THEN i ELSE SkipBlank(s, i + 1)
SkipWord(s, i) == IF i > Len(s) \/ Char(s, i) = Blank THEN i ELSE SkipWord(s, i + 1)
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
    LET a == SkipBlank(s, i)
    IN  IF a > Len(s) THEN <<>>
        ELSE LET b == SkipWord(s, a) IN <<SubSeq(s, a, b - 1)>> \o WordsFrom(s, b)
\* maximal runs of other characters than blanks
Words(s) == WordsFrom(s, 1)

RECURSIVE LastInk(_, _)
LastInk(s, i) == IF i = 0 \/ Char(s, i) # Blank THEN i ELSE LastInk(s, i - 1)
Trim(s) == LET a == SkipBlank(s, 1) b == LastInk(s, Len(s)) IN IF a > b THEN "" ELSE SubSeq(s, a, b)
TrimEnd(s) == SubSeq(s, 1, LastInk(s, Len(s)))
\* the columns from..to (counted from one) of a line
Columns(s, from, to) == IF Len(s) < from THEN "" ELSE SubSeq(s, from, IF to < Len(s) THEN to ELSE Len(s))
IsBlank(s) == SkipBlank(s, 1) > Len(s)

---------------------------------------------------------------------------
(* Numerals:  [+|-] digits [. digits]  with at least one digit.            *)

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[k] : k \in 1..10}
DigitValue(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
AllDigits(s) == \A i \in 1..Len(s) : Char(s, i) \in DigitSet
RECURSIVE Natural(_, _, _)
Natural(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE Natural(s, i + 1, TLCEval(RAdd(RMul(RI(10), acc), RI(DigitValue(Char(s, i))))))
RECURSIVE Power10(_)
Power10(k) == IF k = 0 THEN R1 ELSE RMul(RI(10), Power10(k - 1))
RECURSIVE Point(_, _)
Point(s, i) == IF i > Len(s) THEN 0 ELSE IF Char(s, i) = "." THEN i ELSE Point(s, i + 1)

Unsigned(s) == IF s # "" /\ Char(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
WholePart(u) == LET p == Point(u, 1) IN IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
Fraction(u) == LET p == Point(u, 1) IN IF p = 0 THEN "" ELSE SubSeq(u, p + 1, Len(u))
IsNumeral(s) == LET u == Unsigned(s) w == WholePart(u) f == Fraction(u)
                IN  AllDigits(w) /\ AllDigits(f) /\ Len(w) + Len(f) > 0
\* the number denoted
Numeral(s) ==
    LET u == Unsigned(s) w == WholePart(u) f == Fraction(u)
        v == RDiv(Natural(f, 1, Natural(w, 1, R0)), Power10(Len(f)))
    IN  IF Char(s, 1) = "-" THEN RNeg(v) ELSE v

\* Numerals with at most 18 digits, apart from leading zeros and zeros that end the fraction, must be read; others
\* may be rejected.
RECURSIVE LeadingZeros(_, _), LastDigit(_, _)
LeadingZeros(s, i) == IF i > Len(s) \/ Char(s, i) # "0" THEN i - 1 ELSE LeadingZeros(s, i + 1)
LastDigit(s, i) == IF i = 0 \/ Char(s, i) # "0" THEN i ELSE LastDigit(s, i - 1)
Significant(s) == LET u == Unsigned(s) w == WholePart(u) f == Fraction(u)
                  IN  Len(w) - LeadingZeros(w, 1) + LastDigit(f, Len(f))
Representable(s) == Significant(s) <= 18

(* With an exponent:  numeral (e|E) [+|-] digits  (at most two digits here) *)
RECURSIVE ExpAt(_, _)
ExpAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Char(s, i) \in {"e", "E"} THEN i ELSE ExpAt(s, i + 1)
Mantissa(s) == SubSeq(s, 1, ExpAt(s, 1) - 1)
Exponent(s) == SubSeq(s, ExpAt(s, 1) + 1, Len(s))
IsScientific(s) == /\ ExpAt(s, 1) > 1
                   /\ IsNumeral(Mantissa(s))
                   /\ LET u == Unsigned(Exponent(s)) IN AllDigits(u) /\ Len(u) \in 1..2
Scientific(s) ==
    LET u == Unsigned(Exponent(s))
        k == IF Len(u) = 1 THEN DigitValue(u) ELSE 10 * DigitValue(Char(u, 1)) + DigitValue(Char(u, 2))
        m == TLCEval(Numeral(Mantissa(s)))
    IN  IF Char(Exponent(s), 1) = "-" THEN RDiv(m, Power10(k)) ELSE RMul(m, Power10(k))
=============================================================================
