------------------------------ MODULE DataPrep ------------------------------
(* From image stacks to temporal and spatial statistics, from the           *)
(* definitions of the standard (not from sums and pseudo-variances).        *)
(* A point is [kind, exp, ph, imgs].                                        *)
EXTENDS Reduce, FiniteSets, TLC

--------------------------------------------------------- (* two images *)
Diff(imgs) == RVSub(imgs[2], imgs[1])
PopVar(s) == LET m == RMean(s) IN RSub(RDiv(RSumSq(s), Len(RFlat(s))), RMul(m, m))
TMean(imgs) == RMean(imgs)
TVar(imgs) == RDiv(PopVar(Diff(imgs)), 2)
(* size of the quantities the code subtracts to get TVar                    *)
TSize(imgs) == RDiv(RSumSq(Diff(imgs)), Len(RFlat(imgs[1])))

------------------------------------------------- (* measurement series *)
At(pts, e) == SelectSeq(pts, LAMBDA p : REq(p.exp, e))
Exposures(pts) ==      \* ascending, without repetition
  LET s == SetToSeq({RNum(pts[k].exp) : k \in DOMAIN pts}) IN RSort(s)
ByPhotons(ps) == SortSeq(ps, LAMBDA p, q : RLt(p.ph, q.ph))
Bright(pts, e) == ByPhotons(SelectSeq(At(pts, e), LAMBDA p : ~REq(p.ph, 0)))
Dark(pts, e) == SelectSeq(At(pts, e), LAMBDA p : REq(p.ph, 0))

TemporalErrors(pts) ==
  IF \E k \in DOMAIN pts : LET e == pts[k].exp IN Len(Dark(pts, e)) # 1 \/ Len(Bright(pts, e)) = 0
  THEN {"ValueError"} ELSE {}

(* the points in the order of the temporal arrays                           *)
BrightSeries(pts) ==
  LET es == Exposures(pts) IN FlattenSeq([k \in DOMAIN es |-> Bright(pts, es[k])])
DarkSeries(pts) ==
  LET es == Exposures(pts) IN
  IF Len(es) = 1 THEN [k \in DOMAIN Bright(pts, es[1]) |-> Dark(pts, es[1])[1]]
  ELSE [k \in DOMAIN es |-> Dark(pts, es[k])[1]]

---------------------------------------------------------------- (* stack *)
Column(img, n) == [m \in DOMAIN img |-> img[m][n]]
SVar(s) == LET n == Len(RFlat(s)) m == RMean(s) IN
           RDiv(RSub(RSumSq(s), RMul(n, RMul(m, m))), n - 1)     \* unbiased
Spatial(imgs) ==
  LET r == Stack(imgs)
      L == r.L
      M == Rows(imgs[1])
      N == Cols(imgs[1])
      avg == RVScale(r.sum, RDiv(1, L))
      mean == RMean(avg)
      \* unbiased variance of every pixel over the stack
      pix == RVScale(RVSub(r.sq, RVScale(RVMul(r.sum, r.sum), RDiv(1, L))), RDiv(1, L - 1))
      vmean == RMean(pix)
      cols == [n \in 1..N |-> RMean(Column(avg, n))]
      rows == [m \in 1..M |-> RMean(avg[m])]
  IN [sum |-> RFlat(r.sum), L |-> L, M |-> M, N |-> N, avg_mean |-> mean,
      var_mean |-> vmean,
      avg_var |-> IF M * N = 1 THEN "nan" ELSE SVar(avg),
      cav |-> RSub(PopVar(cols), RDiv(vmean, L * M)),
      rav |-> RSub(PopVar(rows), RDiv(vmean, L * N)),
      pcav |-> PopVar(cols), prav |-> PopVar(rows), top |-> RMaxS(RVAbs(avg))]

SpatialErrors(pts) ==
  IF /\ Len(Exposures(pts)) = 1
     /\ Len(pts) = 2
     /\ Len(Dark(pts, pts[1].exp)) = 1
  THEN {} ELSE {"ValueError"}
=============================================================================
