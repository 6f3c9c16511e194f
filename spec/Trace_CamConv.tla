--------------------------- MODULE Trace_CamConv ---------------------------
(* Recorded calls of the conversions and image helpers of the camera        *)
(* package.  Arrays over wavelengths are sequences of rows, one number per  *)
(* wavelength.                                                              *)
EXTENDS Camera, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Sel(c, name) == IF c THEN {} ELSE {name}
Fine == RPow(10, -11)
Near(a, b) == RClose(a, b, Fine, 0)
Rows(got, from, f(_, _)) == /\ Len(got) = Len(from)
                            /\ \A i \in DOMAIN from : /\ Len(got[i]) = Len(from[i])
                                                      /\ \A k \in DOMAIN from[i] : Near(got[i][k], f(from[i][k], k))
PhotonsOk(ref, ev) == Rows(ev.got, ev.x, LAMBDA x, k : RMul(x, PhotonsPer(ref, ev.exp, ev.area, ev.w[k], ev.f)))
RadianceOk(ref, ev) == Rows(ev.got, ev.x, LAMBDA x, k : Radiance(ref, ev.exp, x, ev.area, ev.f, ev.w[k]))
BackOk(ev) == Rows(ev.back, ev.x, LAMBDA x, k : x)

(* electrons collected on average with the radiance that was returned       *)
Collected(T, ev) ==
  LET per == [k \in DOMAIN ev.w |-> PhotonsPer(T.ref, ev.exp, ev.area, ev.w[k], ev.f)] IN
  RDiv(RSum([i \in DOMAIN ev.got |-> RDot(RVMul(ev.got[i], per), ev.qe[i])]), Len(ev.got))
RadForOk(T, ev) ==
  LET th == Thermal(ev.c, ev.temp, ev.exp) want == RDiv(ev.mean, ev.K) IN
  RClose(RAdd(Collected(T, ev), th), want, RPow(10, -10), RMul(RPow(10, -12), RAdd(th, want)))

SamePic(got, want) == /\ Len(got) = Len(want)
                      /\ \A y \in DOMAIN want : /\ Len(got[y]) = Len(want[y])
                                                /\ \A x \in DOMAIN want[y] : RSame(got[y][x], want[y][x])
SamePic3(got, want) == /\ Len(got) = Len(want)
                       /\ \A y \in DOMAIN want : SamePic(got[y], want[y])

(* a Bayer filter: periodic, each colour 1 at its peak, in [0, 1]           *)
BayerPix(got, y, x, w, loc) ==
  LET px == got[y][x]
      peak == {k \in DOMAIN w : REq(px[k], 1)}
      best == RMinS([k \in DOMAIN w |-> RAbs(RSub(w[k], loc))])
  IN /\ Len(px) = Len(w) /\ peak # {} /\ \A k \in DOMAIN px : RLe(0, px[k]) /\ RLe(px[k], 1)
     /\ \A k \in peak : RLe(RAbs(RSub(w[k], loc)), RAdd(best, 4))
BayerOk(ev) ==
  /\ Len(ev.got) = ev.height /\ \A y \in DOMAIN ev.got : Len(ev.got[y]) = ev.width
  /\ \A y \in 1..ev.height, x \in 1..ev.width :
       IF y > 2 THEN ev.got[y][x] = ev.got[y - 2][x]
       ELSE IF x > 2 THEN ev.got[y][x] = ev.got[y][x - 2]
       ELSE BayerPix(ev.got, y, x, ev.w, ev.loc[(2 * (y - 1)) + x])

Bad(T, ev) ==
  IF ev.e = "qe" THEN
    IF ev.fits THEN Sel(ev.out = "ok", "qe-rejected")
                    \cup (IF ev.out = "ok" THEN Sel(SamePic(ev.got, [i \in DOMAIN ev.x |-> IF ev.filt = <<>> THEN ev.x[i] ELSE
                             [k \in DOMAIN ev.x[i] |-> RDbl(RMul(ev.x[i][k], ev.filt[i][k]))]]), "qe") ELSE {})
    ELSE Sel(ev.out = "ValueError", "qe-accepted")
  ELSE IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE CASE ev.e = "photons" -> Sel(PhotonsOk(T.ref, ev), "photons") \cup Sel(BackOk(ev), "not-inverse")
         [] ev.e = "radiance" -> Sel(RadianceOk(T.ref, ev), "radiance") \cup Sel(BackOk(ev), "not-inverse")
         [] ev.e = "camphotons" -> Sel(PhotonsOk(T.ref, ev), "camera-photons")
         [] ev.e = "radfor" -> Sel(RadForOk(T, ev), "radiance-for")
         [] ev.e = "tile" -> Sel(SamePic(ev.got, Tile(ev.pat, ev.height, ev.width)), "tile")
         [] ev.e = "atile" -> Sel(SamePic3(ev.got, Tile(ev.pat, ev.height, ev.width)), "array-tile")
         [] ev.e = "bayer" -> Sel(BayerOk(ev), "bayer")
         [] ev.e = "near" -> Sel(IsNearest(ev.v, ev.arr, ev.got, 0) /\ (\E k \in DOMAIN ev.arr : REq(ev.arr[k], ev.got)), "nearest")
Modified(ev) == Sel(ev.h0 = ev.h1, "input-modified")

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET T == Traces[t] ev == T.ev[l]
               b == Bad(T, ev) \cup Modified(ev) \cup Sel(RClose(T.ref, NominalRef, RDiv(3, 1000), 0), "constants") IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> T.id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
