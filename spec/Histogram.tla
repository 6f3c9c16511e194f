----------------------------- MODULE Histogram -----------------------------
(* Histograms of integer images: y is the sequence of the valid pixels,     *)
(* qmax the largest number of bins.  Counting is one pixel at a time.       *)
EXTENDS Rat, SequencesExt

Spread(y) == RSub(RMaxS(y), RMinS(y))
BinsFor(q, w) == RAdd(RFloor(RDiv(q, w)), 1)
(* the smallest whole width that needs at most qmax bins                    *)
Width(q, qmax) == IF RLt(q, qmax) THEN 1 ELSE RAdd(RFloor(RDiv(q, qmax)), 1)
NBins(y, qmax) == RToInt(BinsFor(Spread(y), Width(Spread(y), qmax)))
BinStarts(y, qmax) ==
  LET w == Width(Spread(y), qmax) m == RMinS(y) IN
  [k \in 1..NBins(y, qmax) |-> RAdd(m, RMul(k - 1, w))]
BinOf(x, m, w) == RToInt(RFloor(RDiv(RSub(x, m), w))) + 1

CountInit(y, qmax) == [k \in 1..NBins(y, qmax) |-> 0]
CountStep(c, x, m, w) == [c EXCEPT ![BinOf(x, m, w)] = @ + 1]
Counts(y, qmax) ==
  LET w == Width(Spread(y), qmax) m == RMinS(y) IN
  FoldLeft(LAMBDA c, x : CountStep(c, x, m, w), CountInit(y, qmax), y)

PopVar(y) == LET m == RMean(y) IN RSub(RDiv(RSumSq(y), Len(y)), RMul(m, m))
(* the normal distribution of the pixels at x                               *)
Normal(y, qmax, x) ==
  LET v == PopVar(y) e == RSub(x, RMean(y)) IN
  RMul(RDiv(RMul(RDiv(Spread(y), NBins(y, qmax)), Len(y)), RSqrt(RMul(RMul(2, RPi), v))),
       RExp(RNeg(RDiv(RMul(e, e), RMul(2, v)))))

(* accumulated: absolute deviations from the truncated mean, and for every  *)
(* bin the pixels in it or in a later one                                   *)
Deviations(y) == LET m == RTrunc(RMean(y)) IN [k \in DOMAIN y |-> RAbs(RSub(y[k], m))]
FromEnd(c) == FoldRight(LAMBDA x, acc : <<RAdd(x, IF acc = <<>> THEN 0 ELSE acc[1])>> \o acc, c, <<>>)
=============================================================================
