------------------------------ MODULE Results ------------------------------
(* The figures of the standard as functions of the temporal and spatial     *)
(* data.  Indices are those of the code: 0 is the first point.              *)
EXTENDS Rat, SequencesExt, FiniteSets

Signal(d) == RVSub(d.u_y, d.u_ydark)          \* dark-corrected mean
Noise(d) == RVSub(d.s2_y, d.s2_ydark)         \* dark-corrected variance
At0(s, i) == s[i + 1]
Idx0(s) == 0..(Len(s) - 1)
Max0(S) == CHOOSE x \in S : \A y \in S : y <= x
Min0(S) == CHOOSE x \in S : \A y \in S : x <= y

------------------------------------------------------- (* saturation *)
(* The last point, coming down from the highest exposure, that neither of   *)
(* the two points before it reaches; the first one if there is none.        *)
IsPeak(s2, i) == /\ i > 0
                 /\ RLt(At0(s2, i - 1), At0(s2, i))
                 /\ RLt(At0(s2, IF i >= 2 THEN i - 2 ELSE 0), At0(s2, i))
Saturation(s2) == LET P == {i \in Idx0(s2) : IsPeak(s2, i)} IN IF P = {} THEN 0 ELSE Max0(P)

(* The same as a loop from the last point down, one step at a time.         *)
SearchInit(s2) == [i |-> Len(s2) - 1, max |-> 0, at |-> 0, done |-> FALSE]
SearchStep(s2, q) ==
  IF q.done \/ q.i < 0 THEN [q EXCEPT !.done = TRUE]
  ELSE LET x == At0(s2, q.i)
           y == At0(s2, IF q.i > 0 THEN q.i - 1 ELSE 0)
       IN IF RLe(q.max, x) \/ RLe(q.max, y)
          THEN [q EXCEPT !.max = x, !.at = q.i, !.i = @ - 1]
          ELSE [q EXCEPT !.done = TRUE]

(* forced: <<>> or <<index>>                                                *)
SatIndex(d, forced) == IF forced = <<>> THEN Saturation(d.s2_y) ELSE forced[1]

----------------------------------------------------------- (* ranges *)
Level(d, sat, pc) == RMul(RDiv(pc, 100), At0(Signal(d), sat))
AtMost(d, sat, pc) == {i \in Idx0(d.u_y) : RLe(At0(Signal(d), i), Level(d, sat, pc))}
AtLeast(d, sat, pc) == {i \in Idx0(d.u_y) : RLe(Level(d, sat, pc), At0(Signal(d), i))}
SensMax(d, sat) == Max0(AtMost(d, sat, 70))
LinMin(d, sat) == Min0(AtLeast(d, sat, 5))
LinMax(d, sat) == Max0(AtMost(d, sat, 95))
Part(s, i, j) == SubSeq(s, i + 1, j + 1)

------------------------------------------------------------- (* fits *)
Slope0(x, y) == RDiv(RDot(x, y), RSumSq(x))
Line(x, y) ==
  LET n == Len(x) mx == RMean(x) my == RMean(y)
      sxx == RSub(RSumSq(x), RMul(n, RMul(mx, mx)))
      sxy == RSub(RDot(x, y), RMul(n, RMul(mx, my)))
      a == RDiv(sxy, sxx)
  IN [a |-> a, b |-> RSub(my, RMul(a, mx)), sxx |-> sxx]
(* minimises the sum of ((y - a x - b) / y)^2                               *)
RelLine(x, y) ==
  LET v == [k \in DOMAIN y |-> RDiv(1, y[k])]
      xv == RVMul(x, v)
      sxx == RSumSq(xv) sx == RDot(xv, v) s1 == RSumSq(v)
      tx == RSum(xv) t1 == RSum(v)
      det == RSub(RMul(sxx, s1), RMul(sx, sx))
  IN [a |-> RDiv(RSub(RMul(tx, s1), RMul(sx, t1)), det),
      b |-> RDiv(RSub(RMul(sxx, t1), RMul(sx, tx)), det), det |-> det]
Eval(f, x) == RAdd(RMul(f.a, x), f.b)
RelSq(f, x, y) == RSum([k \in DOMAIN x |-> LET e == RDiv(RSub(y[k], Eval(f, x[k])), y[k]) IN RMul(e, e)])
Sq(f, x, y) == RSum([k \in DOMAIN x |-> LET e == RSub(y[k], Eval(f, x[k])) IN RMul(e, e)])
Deviation(f, x, y) == [k \in DOMAIN x |-> RMul(100, RDiv(RSub(y[k], Eval(f, x[k])), Eval(f, x[k])))]

R(d, sat) == Slope0(Part(d.u_p, 0, SensMax(d, sat)), Part(Signal(d), 0, SensMax(d, sat)))
K(d, sat) == Slope0(Part(Signal(d), 0, SensMax(d, sat)), Part(Noise(d), 0, SensMax(d, sat)))

------------------------------------------------------ (* dark series *)
Distinct(s) == Cardinality({RNum(s[k]) : k \in DOMAIN s})
Fitted(d) == Distinct(d.texp) > 2
DarkVariance(d) == IF Fitted(d) THEN Line(d.texp, d.s2_ydark).b ELSE d.s2_ydark[1]
Floor24 == RDiv(24, 100)
SigmaYDark2(d) == RMax(Floor24, DarkVariance(d))
Giga == RPow(10, 9)
MeanCurrentDN(d) == IF Fitted(d) THEN RMul(Giga, Line(d.texp, d.u_ydark).a) ELSE "nan"
VarSlope(d) == IF Fitted(d) THEN RMul(Giga, Line(d.texp, d.s2_ydark).a) ELSE "nan"
NanIfNeg(x) == IF RLt(x, 0) THEN "nan" ELSE x
VarCurrentDN(d, k) == RDiv(NanIfNeg(VarSlope(d)), k)

--------------------------------------- (* figures of merit, from others *)
QEff(r, k) == RDiv(RMul(100, r), k)
SigmaD(sy, k) == RDiv(RSqrt(RSub(RMul(sy, sy), RDiv(1, 12))), k)
UPMin(qe, sy, k) == RMul(RDiv(100, qe), RAdd(RDiv(sy, k), RDiv(1, 2)))
Electrons(qe, p) == RDiv(RMul(qe, p), 100)
DB(x) == RMul(20, RLog10(x))
(* area: <<>> or <<number>>                                                 *)
HasArea(area) == area # <<>> /\ ~REq(area[1], 0)

---------------------------------------------------- (* nonuniformity *)
(* s: [mes, stack, cav, rav, L, M, N]                                       *)
Den(s) == RSub(RMul(s.M, s.N), RAdd(s.M, s.N))
Corrected(s) == RSub(s.mes, RDiv(s.stack, s.L))
ColPart(s) == LET t == Corrected(s) IN
  RDiv(RSub(RMul(RMul(s.M, RSub(s.N, 1)), s.cav), RMul(s.N, RSub(t, s.rav))), Den(s))
RowPart(s) == LET t == Corrected(s) IN
  RDiv(RSub(RMul(RMul(s.N, RSub(s.M, 1)), s.rav), RMul(s.M, RSub(t, s.cav))), Den(s))
PixPart(s) == LET t == Corrected(s) IN
  RDiv(RMul(RMul(s.M, s.N), RSub(t, RAdd(s.cav, s.rav))), Den(s))
=============================================================================
