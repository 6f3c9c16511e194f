------------------------------- MODULE Recover -------------------------------
(* What the evaluation of a dataset of the simulated camera must recover:   *)
(* each configured figure within a bound that follows from the number of    *)
(* pixels and images.  A configuration g is a record                        *)
(*   M, N, L; K, qe, area, bits, bo, uesat; ds0, s2, iref, tref, tdbl, temp *)
(*   dsnu, prnu (rows); mode                                                *)
(* and pts are the points of the dataset (kind, exp, ph).                   *)
EXTENDS Rat, SequencesExt, FiniteSets
LOCAL C == INSTANCE Camera
LOCAL B == INSTANCE Results
LOCAL P == INSTANCE DataPrep

Sigmas == 7
Sixth == RDiv(1, 12)
Giga == RPow(10, 9)
Sq(x) == RMul(x, x)
Pix(g) == g.M * g.N
Current(g) == C!DarkCurrent([iref |-> g.iref, tref |-> g.tref, tdbl |-> g.tdbl], g.temp)
Thermal(g, exp) == RDiv(RMul(Current(g), exp), Giga)
PrnuMean(g) == RMean(g.prnu)
Eff(g) == RMul(g.qe, PrnuMean(g))
Photo(g, ph) == RMul(Eff(g), ph)

(* mean and variance in DN of a pixel, and the fourth cumulant              *)
MeanDN(g, exp, ph) == RMul(g.K, RAdd(RAdd(g.ds0, Thermal(g, exp)), Photo(g, ph)))
VarDN(g, exp, ph) == RAdd(RMul(Sq(g.K), RAdd(RAdd(g.s2, Thermal(g, exp)), Photo(g, ph))), Sixth)
FourDN(g, exp, ph) == RMul(Sq(Sq(g.K)), RAdd(Thermal(g, exp), Photo(g, ph)))
(* variance of the mean of two images, and of the two-image variance        *)
VarOfMean(g, v) == RDiv(v, 2 * Pix(g))
VarOfVar(g, v, four) == RDiv(RAdd(RMul(2, Sq(v)), RDiv(four, 2)), Pix(g))

------------------------------------------------------- (* admissibility *)
(* no electron and no grey value is clipped below, the noise is not lost in *)
(* the quantisation                                                         *)
Noise(g) == RSqrt(g.s2)
Fluctuation(g) == RMul(6, Noise(g))
DarkFloor(g) == RSub(RAdd(g.ds0, RMinS(g.dsnu)), Fluctuation(g))
Admissible(g) ==
  /\ RLe(0, DarkFloor(g))
  /\ RLe(RDiv(6, 10), RMul(g.K, Noise(g)))
  /\ RLe(RMul(g.K, RAdd(RAdd(g.ds0, RMaxS(g.dsnu)), Fluctuation(g))), RDiv(C!Top([bits |-> g.bits]), 5))

----------------------------------------------------------- (* series *)
(* points in the order of the results                                       *)
Bright(pts) == P!BrightSeries(SelectSeq(pts, LAMBDA p : p.kind = "temporal"))
DarkTimes(pts) == LET d == P!Exposures(SelectSeq(pts, LAMBDA p : p.kind = "temporal")) IN d
Lit(pts) == SelectSeq(pts, LAMBDA p : p.kind = "spatial" /\ ~REq(p.ph, 0))[1]

Xs(g, b) == [k \in DOMAIN b |-> RMul(g.K, Photo(g, b[k].ph))]
VBright(g, b) == [k \in DOMAIN b |-> VarDN(g, b[k].exp, b[k].ph)]
VDark(g, b) == [k \in DOMAIN b |-> VarDN(g, b[k].exp, 0)]
UBright(g, b) == [k \in DOMAIN b |-> VarOfVar(g, VarDN(g, b[k].exp, b[k].ph), FourDN(g, b[k].exp, b[k].ph))]
UDark(g, b) == [k \in DOMAIN b |-> VarOfVar(g, VarDN(g, b[k].exp, 0), FourDN(g, b[k].exp, 0))]
One(b) == Cardinality({RNum(b[k].exp) : k \in DOMAIN b}) = 1

(* variance of the slope of y = a x whose points have variances u, and a    *)
(* background w, common to all points or one for each                       *)
SlopeVar(x, u, w, common) ==
  LET n == RSumSq(x) x2 == RVMul(x, x)
      back == IF common THEN RMul(Sq(RSum(x)), w[1]) ELSE RDot(x2, w)
  IN RDiv(RAdd(RDot(x2, u), back), Sq(n))
KVar(g, b) == SlopeVar(Xs(g, b), UBright(g, b), UDark(g, b), One(b))
RVar(g, b) == SlopeVar([k \in DOMAIN b |-> b[k].ph], [k \in DOMAIN b |-> VarOfMean(g, VBright(g, b)[k])],
                       [k \in DOMAIN b |-> VarOfMean(g, VDark(g, b)[k])], One(b))
(* variances of the slope and of the intercept of a line through points of  *)
(* variances u at times t                                                   *)
LineVars(t, u) ==
  LET m == RMean(t) c == RVShift(t, RNeg(m)) sxx == RSumSq(c)
      w == [k \in DOMAIN t |-> RSub(RDiv(1, Len(t)), RDiv(RMul(m, c[k]), sxx))]
  IN [a |-> RDiv(RDot(RVMul(c, c), u), Sq(sxx)), b |-> RDot(RVMul(w, w), u)]

Within(got, want, var, rel) == RLe(RAbs(RSub(got, want)), RAdd(RMul(Sigmas, RSqrt(var)), RMul(rel, RAbs(want))))
Promille == RDiv(1, 1000)

------------------------------------------------------- (* the recovered *)
(* x: recovered figures by name; m: the last point of the sensitivity fit,  *)
(* from 0                                                                   *)
Fit(b, m) == SubSeq(b, 1, m + 1)
RangeOk(g, b, m) ==
  LET x == Xs(g, b)
      dn == RSub(RSub(C!Top([bits |-> g.bits]), g.bo), MeanDN(g, b[Len(b)].exp, 0))
      el == RMul(g.K, RSub(g.uesat, RAdd(g.ds0, Thermal(g, b[Len(b)].exp))))
      top == RMin(x[Len(x)], RMin(dn, el)) IN
  /\ m >= 0 /\ m < Len(b) /\ RLe(x[m + 1], RMul(RDiv(78, 100), top))
  /\ (m + 2 <= Len(b) => RLe(RMul(RDiv(1, 2), top), x[m + 2]))

GainOk(g, b, m, k) == Within(k, g.K, KVar(g, Fit(b, m)), Promille)
ResponsivityOk(g, b, m, r) == Within(r, RMul(g.K, Eff(g)), RVar(g, Fit(b, m)), Promille)
(* relative variances of a quotient add                                     *)
QeOk(g, b, m, q) ==
  LET f == Fit(b, m) want == RMul(100, Eff(g))
      rel == RAdd(RDiv(KVar(g, f), Sq(g.K)), RDiv(RVar(g, f), Sq(RMul(g.K, Eff(g)))))
  IN Within(q, want, RMul(Sq(want), rel), RMul(2, Promille))

(* the temporal dark noise: that of the only exposure or the one at time 0  *)
Times(g, pts) == DarkTimes(pts)
DarkVars(g, t) == [k \in DOMAIN t |-> VarOfVar(g, VarDN(g, t[k], 0), FourDN(g, t[k], 0))]
DarkMeans(g, t) == [k \in DOMAIN t |-> VarOfMean(g, VarDN(g, t[k], 0))]
NoiseVar(g, t) == IF Len(t) > 2 THEN [v |-> VarDN(g, 0, 0), u |-> LineVars(t, DarkVars(g, t)).b]
                  ELSE [v |-> VarDN(g, t[1], 0), u |-> DarkVars(g, t)[1]]
NoiseDNOk(g, t, s) == LET n == NoiseVar(g, t) IN Within(Sq(s), n.v, n.u, Promille)
(* sigma_d^2 K^2 = sigma_y^2 - 1/12                                         *)
NoiseOk(g, b, m, t, s) ==
  LET n == NoiseVar(g, t) want == RDiv(RSub(n.v, Sixth), Sq(g.K))
      var == RAdd(RDiv(n.u, Sq(Sq(g.K))), RMul(RMul(4, Sq(want)), RDiv(KVar(g, Fit(b, m)), Sq(g.K))))
  IN Within(Sq(s), want, var, RMul(3, Promille))
(* the dark current                                                         *)
Scaled(g, b, m, var) == RAdd(var, RMul(Sq(Current(g)), RDiv(KVar(g, Fit(b, m)), Sq(g.K))))
CurrentMeanOk(g, b, m, t, i) ==
  IF Len(t) <= 2 THEN RIsNan(i)
  ELSE Within(i, Current(g), Scaled(g, b, m, RDiv(RMul(Sq(Giga), LineVars(t, DarkMeans(g, t)).a), Sq(g.K))), RMul(2, Promille))
CurrentMeanDNOk(g, t, i) ==
  IF Len(t) <= 2 THEN RIsNan(i)
  ELSE Within(i, RMul(g.K, Current(g)), RMul(Sq(Giga), LineVars(t, DarkMeans(g, t)).a), Promille)
CurrentVarOk(g, b, m, t, i) ==
  IF Len(t) <= 2 THEN RIsNan(i)
  ELSE LET var == RDiv(RMul(Sq(Giga), LineVars(t, DarkVars(g, t)).a), Sq(Sq(g.K)))
           all == RAdd(var, RMul(4, RMul(Sq(Current(g)), RDiv(KVar(g, Fit(b, m)), Sq(g.K)))))
       IN IF RIsNan(i) THEN RLe(Current(g), RMul(Sigmas, RSqrt(var)))
          ELSE Within(i, Current(g), all, RMul(4, Promille))

(* spatial variances: of the pattern, its columns, rows and the rest        *)
Pattern(rows) ==
  LET M == Len(rows) N == Len(rows[1])
      cols == [n \in 1..N |-> RMean(P!Column(rows, n))] lines == [m \in 1..M |-> RMean(rows[m])]
      s == [mes |-> P!SVar(rows), stack |-> 0, cav |-> P!PopVar(cols), rav |-> P!PopVar(lines), L |-> 1, M |-> M, N |-> N]
  IN [all |-> s.mes, cav |-> s.cav, rav |-> s.rav, col |-> B!ColPart(s), row |-> B!RowPart(s), pixel |-> B!PixPart(s)]
(* pattern of the lit images in electrons; the dark's is dsnu               *)
LitPattern(g, ph) == RVAdd(g.dsnu, RVScale(g.prnu, RMul(g.qe, ph)))
(* variance of an estimated spatial variance: n values of noise v around a  *)
(* pattern of variance p, less the variance of the stack over L             *)
SpatVar(g, n, v, p, stack) ==
  RAdd(RDiv(RAdd(RMul(2, Sq(v)), RMul(4, RMul(v, RMax(p, 0)))), n),
       RDiv(RMul(2, Sq(stack)), RMul(Sq(g.L), (g.L - 1) * Pix(g))))
(* the parts mix the variances of all pixels, of columns and of rows        *)
PartVar(g, part, v, p, stack) ==
  LET all == SpatVar(g, Pix(g), v, p.all, stack)
      col == SpatVar(g, g.N - 1, RDiv(v, g.M), p.cav, 0)
      row == SpatVar(g, g.M - 1, RDiv(v, g.N), p.rav, 0)
  IN CASE part = "all" -> all
       [] part = "col" -> RAdd(col, RDiv(RMul(2, RAdd(all, row)), Sq(g.M - 1)))
       [] part = "row" -> RAdd(row, RDiv(RMul(2, RAdd(all, col)), Sq(g.N - 1)))
       [] part = "pixel" -> RMul(RDiv(12, 10), RAdd(all, RAdd(row, col)))
(* q: the pattern at exp and ph                                             *)
InDN(g, q) == [x \in DOMAIN q |-> RMul(Sq(g.K), q[x])]
PatternOk(g, q, part, exp, ph, got) ==
  LET p == InDN(g, q) s == VarDN(g, exp, ph)
  IN Within(got, p[part], PartVar(g, part, RDiv(s, g.L), p, s), Promille)
DsnuOk(g, b, m, q, exp, got) ==
  LET p == InDN(g, q) s == VarDN(g, exp, 0)
      var == RAdd(RDiv(PartVar(g, "all", RDiv(s, g.L), p, s), Sq(Sq(g.K))),
                  RMul(RMul(4, Sq(q.all)), RDiv(KVar(g, Fit(b, m)), Sq(g.K))))
  IN IF RIsNan(got) THEN RLe(q.all, RMul(Sigmas, RSqrt(var))) ELSE Within(Sq(got), q.all, var, RMul(3, Promille))
PrnuOk(g, qb, qd, exp, ph, got) ==
  LET e == Photo(g, ph)
      pb == InDN(g, qb) pd == InDN(g, qd)
      sb == VarDN(g, exp, ph) sd == VarDN(g, exp, 0)
      scale == RMul(Sq(g.K), Sq(e))
      want == RDiv(RSub(pb.all, pd.all), scale)
      var == RDiv(RAdd(PartVar(g, "all", RDiv(sb, g.L), pb, sb), PartVar(g, "all", RDiv(sd, g.L), pd, sd)), Sq(scale))
  IN IF RIsNan(got) THEN RLe(want, RMul(Sigmas, RSqrt(var)))
     ELSE Within(Sq(RDiv(got, 100)), want, var, RMul(3, Promille))
=============================================================================
