-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  A number is a TLC integer or a canonical     *)
(* string "n", "n/d", "nan", "inf", "-inf".  The operators are implemented  *)
(* by the Java class of the same name (java/Rat.java), which TLC loads in   *)
(* place of the definitions below; RatTest.tla compares the two on small    *)
(* integers and checks the algebraic laws.  The definitions given here are  *)
(* the meaning of each operator on integers (division: exact division).     *)
EXTENDS Integers, Sequences, TLC

NotHere == Assert(FALSE, "Rat.class is not on TLC's class path")

RNum(a) == NotHere
RAdd(a, b) == NotHere
RSub(a, b) == NotHere
RMul(a, b) == NotHere
RDiv(a, b) == NotHere
RNeg(a) == NotHere
RAbs(a) == NotHere
RLt(a, b) == NotHere
RLe(a, b) == NotHere
REq(a, b) == NotHere
RSame(a, b) == NotHere
RIsNan(a) == NotHere
RIsFin(a) == NotHere
RIsInt(a) == NotHere
RFloor(a) == NotHere
RRint(a) == NotHere
RTrunc(a) == NotHere
RMod(a, b) == NotHere
RToInt(a) == NotHere
RPow(a, k) == NotHere
RClose(a, b, rtol, atol) == NotHere
RCloseSeq(a, b, rtol, atol) == NotHere
RDbl(a) == NotHere
RSum(s) == NotHere
RSumSq(s) == NotHere
RDot(s, u) == NotHere
RMaxS(s) == NotHere
RMinS(s) == NotHere
RCountLt(s, a) == NotHere
RFlat(s) == NotHere
RVAdd(s, u) == NotHere
RVSub(s, u) == NotHere
RVMul(s, u) == NotHere
RVDiv(s, u) == NotHere
RVScale(s, c) == NotHere
RVShift(s, c) == NotHere
RVAbs(s) == NotHere
RVSqrt(s) == NotHere
RSort(s) == NotHere
RSqrt(a) == NotHere
RPi == NotHere
RExp(a) == NotHere
RPhi(a) == NotHere      \* distribution function of the standard normal distribution
RLn(a) == NotHere
RCosTurn(k, n) == NotHere
RSinTurn(k, n) == NotHere
RDecimal(s) == NotHere
Codes(s) == NotHere
Text(s) == NotHere

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMean(s) == RDiv(RSum(s), Len(RFlat(s)))
RLog10(a) == RDiv(RLn(a), RLn(10))
RLog2(a) == RDiv(RLn(a), RLn(2))
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
=============================================================================
