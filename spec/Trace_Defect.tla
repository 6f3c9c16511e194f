---------------------------- MODULE Trace_Defect ----------------------------
(* Recorded calls of Histogram1288 ("hist": y, the valid pixels in order),  *)
(* of high_pass_filter ("hp") and of the four defect pixel histograms of    *)
(* Results1288 ("dsnu", "prnu", "dsnu_acc", "prnu_acc": img, the dark sum   *)
(* or the bright minus dark sum, L, the number of images).                  *)
EXTENDS Histogram, HighPass, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

E(k) == RPow(10, -k)
Sel(c, name) == IF c THEN {} ELSE {name}
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN b : REq(a[k], b[k])
Close(a, b, rt, at) == Len(a) = Len(b) /\ RCloseSeq(a, b, rt, at)

(* the mean and the deviation of the pixels are doubles                     *)
ModelTol(y, top) == RAdd(E(8), RMul(E(14), RDiv(RMul(top, Spread(y)), PopVar(y))))

(* bins as reported = (start - shift) / scale                               *)
BadHist(ev, y, qmax, shift, scale) ==
  LET b == BinStarts(y, qmax) top == RMax(RMaxS(RVAbs(y)), 1)
      e == [k \in DOMAIN b |-> RDiv(RSub(b[k], shift), scale)]
  IN Sel(IF REq(shift, 0) /\ REq(scale, 1) THEN Same(ev.bins, e) ELSE Close(ev.bins, e, E(12), RMul(E(13), RDiv(top, scale))), "bins")
     \cup Sel(Same(ev.values, Counts(y, qmax)), "values")
     \cup (IF REq(Spread(y), 0) THEN {}
           ELSE Sel(Close(ev.model, [k \in DOMAIN b |-> Normal(y, qmax, b[k])], ModelTol(y, top), E(250)), "model"))
BadAcc(ev, y0, qmax, scale) ==
  LET y == Deviations(y0) b == BinStarts(y, qmax) c == FromEnd(Counts(y, qmax)) IN
  Sel(Close(ev.bins, [k \in DOMAIN b |-> RDiv(b[k], scale)], E(12), 0), "bins")
  \cup Sel(Close(ev.values, [k \in DOMAIN c |-> RDiv(RMul(100, c[k]), Len(y))], E(12), 0), "values")
  \cup Sel(ev.values # <<>> /\ RClose(ev.values[1], 100, E(12), 0), "start")
  \cup Sel(\A k \in DOMAIN ev.values : k > 1 => RLe(ev.values[k], ev.values[k - 1]), "increasing")

BadFilter(ev) ==
  IF Rejected(ev.img, ev.mask, ev.dim) THEN IF ev.out = "ValueError" THEN {} ELSE {"accepted"}
  ELSE IF ev.out # "ok" THEN {"rejected"}
  ELSE LET d == Half(ev.dim) h == Ht(ev.img) - 2 * d w == Wd(ev.img) - 2 * d IN
       IF ~(Len(ev.res) = h /\ \A k \in DOMAIN ev.res : Len(ev.res[k]) = w) THEN {"shape"}
       ELSE Sel(Same(ValidPixels(ev.res, ev.rmask), FilteredValid(ev.img, ev.mask, ev.dim)), "filtered")
            \cup Sel(IF ev.mask = <<>> THEN ev.rmask = <<>> \/ \A y \in 1..h, x \in 1..w : ~ev.rmask[y][x]
                     ELSE ev.rmask # <<>> /\ \A y \in 1..h, x \in 1..w : ev.rmask[y][x] = ev.mask[y + d][x + d], "mask")
            \cup Sel(REq(ev.mult, Factor(ev.img, ev.mask, ev.dim)), "multiplicator")
            \cup Sel(ev.dt = ev.rdt, "type")

RejectedFilter(ev) == ev.e \in {"prnu", "prnu_acc"} /\ Rejected(ev.img, ev.mask, 5)
Bad(ev) ==
  Sel(ev.h0 = ev.h1, "input-modified") \cup
  (IF ev.e = "hp" THEN BadFilter(ev)
   ELSE IF RejectedFilter(ev) THEN IF ev.out = "ValueError" THEN {} ELSE {"accepted"}
   ELSE IF ev.out # "ok" THEN {"rejected"}
   ELSE CASE ev.e = "hist" -> BadHist(ev, ev.y, ev.qmax, 0, 1)
          [] ev.e = "dsnu" -> LET y == ValidPixels(ev.img, ev.mask) IN BadHist(ev, y, 256, RMean(y), ev.L)
          [] ev.e = "dsnu_acc" -> BadAcc(ev, ValidPixels(ev.img, ev.mask), 256, ev.L)
          [] ev.e = "prnu" -> BadHist(ev, FilteredValid(ev.img, ev.mask, 5), 256, 0, RMul(ev.L, Factor(ev.img, ev.mask, 5)))
          [] ev.e = "prnu_acc" -> BadAcc(ev, FilteredValid(ev.img, ev.mask, 5), 256, RMul(ev.L, Factor(ev.img, ev.mask, 5))))

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
