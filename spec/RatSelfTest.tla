---------------------------- MODULE RatSelfTest ----------------------------
(***************************************************************************)
(* Compares the Java override of Rat with the definitions in Rat.tla.      *)
(* RatDef is the same text under another name (made by check.py), which    *)
(* TLC evaluates as written.  Numbers that outgrow 31 bits, which the      *)
(* definitions cannot reach, are tested by the laws of a field.            *)
(***************************************************************************)
EXTENDS Rat, TLC
D == INSTANCE RatDef

Nums == {RFrac(n, d) : n \in -3..3, d \in 1..3} \cup {RFrac(7, -4), RFrac(-30, 12)}
Few == {RI(-1), R0, R1, RFrac(2, 3)}
Vecs == {<<>>} \cup {<<a>> : a \in Few} \cup {<<a, b>> : a \in Few, b \in Few}
Mats == {<<u, v>> : u \in {w \in Vecs : Len(w) = 2}, v \in {<<R0, R1>>, <<R0, R0>>, <<RFrac(2, 3), RI(-1)>>}}

VARIABLES kind, a, b
Init ==
    \/ kind = "num" /\ a \in Nums /\ b \in Nums
    \/ kind = "frac" /\ a \in -6..6 /\ b \in {-4, -3, -2, -1, 1, 2, 3, 4, 6}
    \/ kind = "vec" /\ a \in Vecs /\ b \in {v \in Vecs : Len(v) = Len(a)}
    \/ kind = "mat" /\ a \in Mats /\ b \in Mats
    \/ kind = "big" /\ a \in Nums /\ b \in Nums
Next == UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_<<kind, a, b>>

Num ==
    /\ RAdd(a, b) = D!RAdd(a, b) /\ RSub(a, b) = D!RSub(a, b) /\ RMul(a, b) = D!RMul(a, b)
    /\ b = R0 \/ RDiv(a, b) = D!RDiv(a, b)
    /\ RNeg(a) = D!RNeg(a) /\ RCmp(a, b) = D!RCmp(a, b) /\ RSign(a) = D!RSign(a)
    /\ REq(a, b) = D!REq(a, b) /\ RLt(a, b) = D!RLt(a, b) /\ RLe(a, b) = D!RLe(a, b)
    /\ RIsZero(a) = D!RIsZero(a) /\ RIsInt(a) = D!RIsInt(a)
    /\ RMin(a, b) = D!RMin(a, b) /\ RMax(a, b) = D!RMax(a, b)
Vec ==
    /\ RVEq(a, b) = D!RVEq(a, b) /\ RVAdd(a, b) = D!RVAdd(a, b) /\ RVSub(a, b) = D!RVSub(a, b)
    /\ \A s \in Few : RVScale(s, a) = D!RVScale(s, a) /\ RAxpy(s, a, b) = D!RAxpy(s, a, b)
    /\ RVNeg(a) = D!RVNeg(a) /\ RVIsZero(a) = D!RVIsZero(a) /\ RVNonNeg(a) = D!RVNonNeg(a)
    /\ RDot(a, b) = D!RDot(a, b) /\ RNorm2(a) = D!RNorm2(a)
    /\ RVZero(Len(a)) = D!RVZero(Len(a)) /\ \A k \in 1..Len(a) : RUnit(Len(a), k) = D!RUnit(Len(a), k)
    /\ \A n \in 0..Len(a) : RFirstNeg(a, n) = D!RFirstNeg(a, n)
Mat ==
    /\ RMatVec(a, b[1]) = D!RMatVec(a, b[1]) /\ RMatVec(a, b[2]) = D!RMatVec(a, b[2])
    /\ \A j \in 1..2 : RCol(a, j) = D!RCol(a, j)
    /\ RVecMat(b[1], a, 2) = D!RVecMat(b[1], a, 2)
    /\ RMatMul(a, b, 2) = D!RMatMul(a, b, 2) /\ RMatEq(a, b) = D!RMatEq(a, b)
    /\ RIdentity(2) = D!RIdentity(2)
    /\ \A r, c \in 1..2 : RIsZero(a[r][c]) \/ RPivot(a, r, c) = D!RPivot(a, r, c)
    /\ \A j \in 1..2, B \in {<<1, 2>>, <<2, 1>>} :
          RRatioRow(<<a[1] \o <<b[1][1]>>, a[2] \o <<b[2][2]>> >>, B, 2, j, 3)
            = D!RRatioRow(<<a[1] \o <<b[1][1]>>, a[2] \o <<b[2][2]>> >>, B, 2, j, 3)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN R1 ELSE RMul(x, Power(x, n - 1))
Big ==
    LET h == RMul(RI(1000003), RI(999983))
        x == RMul(RAdd(a, RFrac(1, 7)), Power(h, 3))
        y == RDiv(RAdd(b, RFrac(1, 11)), Power(h, 2))
    IN  /\ REq(RSub(RAdd(x, y), y), x) /\ REq(RMul(RDiv(x, y), y), x)
        /\ REq(RMul(RAdd(x, y), RSub(x, y)), RSub(RMul(x, x), RMul(y, y)))
        /\ RSign(x) = RSign(RAdd(a, RFrac(1, 7))) /\ RCmp(x, RAdd(x, y)) = -RSign(y)
        /\ REq(RDiv(x, Power(h, 3)), RAdd(a, RFrac(1, 7))) /\ RDiv(x, Power(h, 3)) = RAdd(a, RFrac(1, 7))
Agree == CASE kind = "num" -> Num
           [] kind = "frac" -> RFrac(a, b) = D!RFrac(a, b)
           [] kind = "vec" -> Vec [] kind = "mat" -> Mat [] kind = "big" -> Big
=============================================================================
