------------------------------ MODULE RatTest ------------------------------
(* The Java implementation of Rat against TLC's own integers, and the laws  *)
(* of the operators, on small numbers.                                      *)
EXTENDS Rat, FiniteSets
CONSTANT B
VARIABLES a, b
vars == <<a, b>>
I == -B..B
Qs == {RDiv(n, d) : n \in I, d \in 1..4}
Init == a \in Qs /\ b \in Qs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ints == \A n \in {a}, d \in {b} : (RIsInt(n) /\ RIsInt(d)) =>
  LET x == RToInt(n) y == RToInt(d) IN
  /\ RSame(RAdd(n, d), x + y) /\ RSame(RSub(n, d), x - y) /\ RSame(RMul(n, d), x * y)
  /\ RLt(n, d) = (x < y) /\ RLe(n, d) = (x <= y) /\ REq(n, d) = (x = y)
  /\ (y > 0 => /\ RSame(RFloor(RDiv(n, d)), x \div y) /\ RSame(RMod(n, d), x % y))
  /\ RSame(RAbs(n), IF x < 0 THEN -x ELSE x)
  /\ RSame(RSum(<<n, <<d, n>>>>), x + y + x) /\ RSame(RDot(<<n, d>>, <<d, n>>), 2 * x * y)
  /\ RSame(RSumSq(<<n, d>>), x * x + y * y)
  /\ RSame(RMaxS(<<n, d>>), IF x > y THEN x ELSE y) /\ RSame(RMinS(<<n, d>>), IF x < y THEN x ELSE y)
Field ==
  /\ RSame(RSub(RAdd(a, b), b), a)
  /\ (~REq(b, 0) => RSame(RMul(RDiv(a, b), b), a))
  /\ RSame(RMul(a, RAdd(b, 1)), RAdd(RMul(a, b), a))
  /\ (RLt(a, b) <=> RLt(RSub(a, b), 0))
  /\ RSame(RNeg(a), RSub(0, a))
Rounding ==
  LET f == RFloor(a) r == RRint(a) t == RTrunc(a) IN
  /\ RIsInt(f) /\ RLe(f, a) /\ RLt(a, RAdd(f, 1))
  /\ RIsInt(r) /\ RLe(RAbs(RSub(r, a)), "1/2")
  /\ (REq(RAbs(RSub(r, a)), "1/2") => RSame(RMod(r, 2), 0))
  /\ RSame(t, IF RLt(a, 0) THEN RNeg(RFloor(RNeg(a))) ELSE f)
  /\ (RIsInt(RMul(a, 4)) => RSame(RDbl(a), a))
  /\ RLe(RAbs(RSub(RDbl(RDiv(a, 3)), RDiv(a, 3))), RMul(RAbs(a), RPow(2, -53)))
Roots ==
  LET s == RSqrt(RMul(a, a)) IN
  /\ RSame(s, RAbs(a))
  /\ (RLe(0, a) => RClose(RMul(RSqrt(a), RSqrt(a)), a, RPow(10, -45), 0))
  /\ RClose(RMul(RExp(a), RExp(b)), RExp(RAdd(a, b)), RPow(10, -40), 0)
  /\ (RLt(0, a) => RClose(RExp(RLn(a)), a, RPow(10, -40), 0))
Phi ==
  /\ RClose(RAdd(RPhi(a), RPhi(RNeg(a))), 1, RPow(10, -38), 0)
  /\ (RLt(a, b) /\ RLt(b, 12) /\ RLt(-12, a) => RLt(RPhi(a), RPhi(b)))
Trig ==
  \A n \in 1..6, k \in 0..6 :
    /\ RClose(RAdd(RMul(RCosTurn(k, n), RCosTurn(k, n)), RMul(RSinTurn(k, n), RSinTurn(k, n))), 1, RPow(10, -40), 0)
    /\ RClose(RCosTurn(2 * k, n), RSub(RMul(2, RMul(RCosTurn(k, n), RCosTurn(k, n))), 1), 0, RPow(10, -40))
Special ==
  /\ RIsNan(RAdd("nan", a)) /\ RIsNan(RSub("inf", "inf")) /\ RSame(RDiv(1, 0), "inf") /\ RIsNan(RDiv(0, 0))
  /\ ~RLt("nan", a) /\ ~RLe(a, "nan") /\ RSame("nan", "nan") /\ ~REq("nan", "nan") /\ RIsNan(RSqrt(-1))
  /\ RClose(RCosTurn(1, 6), "1/2", 0, RPow(10, -40)) /\ RClose(RPi, "355/113", 0, RPow(10, -6))
  /\ RSame(RPhi(0), "1/2") /\ RClose(RPhi("5/2"), "9937903346742239/10000000000000000", 0, RPow(10, -15))
  /\ RSame(RDecimal(Codes("-12.50e1")), -125) /\ RIsNan(RDecimal(Codes("1.2.3")))
  /\ Text(Codes("a b")) = "a b" /\ RSame(RDbl(RDecimal(Codes("0.1"))), "3602879701896397/36028797018963968")
  /\ RSort(<<3, "1/2", -1>>) = <<"-1", "1/2", "3">> /\ RCountLt(<<1, 2, 3>>, "5/2") = 2
  /\ RVAdd(<<1, <<2>>>>, <<3, <<4>>>>) = <<"4", <<"6">>>>
Inv == Ints /\ Field /\ Rounding /\ Roots /\ Phi /\ (a = b => Trig /\ Special)
=============================================================================
