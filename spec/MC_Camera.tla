------------------------------ MODULE MC_Camera ------------------------------
(* The transfer curve of one pixel, walked level by level, for a grid of    *)
(* configurations, and the scaling laws of its electrons.                   *)
EXTENDS Camera, SequencesExt, Json, TLC
CONSTANTS Bits, Ks, Offsets, Wells, Temps, Exps, FNumbers
VARIABLES c, s, level
vars == <<c, s, level>>

K(k) == RDecimal(Codes(k))
Conf(b, u) == [bits |-> b, uesat |-> u, ds0 |-> 0, s2 |-> 0, iref |-> 30, tref |-> 30, tdbl |-> 8, area |-> 25,
               w |-> <<500>>, qe |-> <<<<K("0.5")>>>>, prnu |-> <<K("1.5")>>]
Set(k, o) == [K |-> K(k), bo |-> o, exp |-> 1000000, temp |-> 22, f |-> 8, dsnu |-> <<0>>]
(* the electrons of the levels: around nothing, the ends of the converter   *)
(* and the full well, and in between                                        *)
AtDN(x) == RDiv(RSub(x, s.bo), s.K)
Levels == RSort(<<-7, RNeg(K("0.5")), 0, K("0.25"), 1, 2, AtDN(1), AtDN(K("2.5")), AtDN(RDiv(Top(c), 2)),
                  AtDN(RSub(Top(c), 1)), AtDN(Top(c)), AtDN(RAdd(Top(c), 2)), RSub(c.uesat, 1), c.uesat, RAdd(c.uesat, 1),
                  RMul(c.uesat, 3)>>)
Init == /\ \E b \in Bits, u \in Wells : c = Conf(b, u)
        /\ \E k \in Ks, o \in Offsets : s = Set(k, o)
        /\ level = 1
Next == level < Len(Levels) /\ level' = level + 1 /\ UNCHANGED <<c, s>>
Spec == Init /\ [][Next]_vars

V(n) == Analog(c, s, Levels[n])
Curve ==
  /\ RLe(0, LowDN(c, V(level))) /\ RLe(LowDN(c, V(level)), HighDN(c, V(level))) /\ RLe(HighDN(c, V(level)), Top(c))
  /\ RLe(RSub(HighDN(c, V(level)), LowDN(c, V(level))), 2)
  /\ level > 1 => RLe(V(level - 1), V(level)) /\ RLe(HighDN(c, V(level - 1)), HighDN(c, V(level)))
  /\ RLe(Levels[level], 0) => REq(V(level), s.bo)
  /\ RLe(c.uesat, Levels[level]) => REq(V(level), RAdd(RMul(s.K, c.uesat), s.bo))
  /\ (RLt(0, Levels[level]) /\ RLt(Levels[level], c.uesat)) => REq(RDiv(RSub(V(level), s.bo), s.K), Levels[level])
One == RPow(10, -12)
Scaling == level = 1 =>
  /\ \A tc \in Temps, e \in Exps :
       /\ RClose(Thermal(c, RAdd(tc, c.tdbl), e), RMul(2, Thermal(c, tc, e)), One, 0)
       /\ RClose(Thermal(c, tc, RMul(3, e)), RMul(3, Thermal(c, tc, e)), One, 0)
       /\ RLt(Thermal(c, tc, e), Thermal(c, RAdd(tc, 1), e))
  /\ REq(Thermal(c, c.tref, RPow(10, 9)), c.iref)
  /\ \A e \in Exps, f \in FNumbers :
       LET P(x, e1, a, w, f1) == PhotoE([c EXCEPT !.area = a, !.w = <<w>>], NominalRef, <<<<x>>>>, e1, f1)[1] IN
       /\ RClose(P(2, e, 25, 500, f), RMul(2, P(1, e, 25, 500, f)), One, 0)
       /\ RClose(P(1, RMul(2, e), 25, 500, f), RMul(2, P(1, e, 25, 500, f)), One, 0)
       /\ RClose(P(1, e, 50, 500, f), RMul(2, P(1, e, 25, 500, f)), One, 0)
       /\ RClose(P(1, e, 25, 1000, f), RMul(4, P(1, e, 25, 500, f)), One, 0)
       /\ RClose(RMul(P(1, e, 25, 500, f), RAdd(1, RMul(4, RMul(f, f)))), P(1, e, 25, 500, 0), One, 0)
Emit == IF level = Len(Levels)
        THEN PrintT("SCN " \o ToJson([bits |-> c.bits, uesat |-> c.uesat, K |-> s.K, bo |-> s.bo, e |-> Levels]))
        ELSE TRUE
Inv == Curve /\ Scaling /\ Emit
=============================================================================
