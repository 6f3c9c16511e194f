--------------------------- MODULE Trace_Dataset ---------------------------
(* Recorded point lists and datasets.                                       *)
(*  "points": the points of a PointsGenerator, [kind, exp, rads], a         *)
(*    radiance being [rad: one mean per wavelength, uni: no pixel differs]  *)
(*  "dataset": the descriptor (text, base), all files (path, dig, tot), all *)
(*    grabs (exp, K, bo, rad, uni, dig) and what loading it gives.          *)
(*  "auto": the gain (autoK) and black offset (autoB) a generator chose.    *)
EXTENDS Dataset, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Sel(c, name) == IF c THEN {} ELSE {name}
Fine == RPow(10, -10)
Near(a, b) == RClose(a, b, Fine, RPow(10, -14))
NearExp(a, b) == RClose(a, b, Fine, RDiv(1, 19))      \* one decimal

Photons(T, c, exp, rad, f) == RSum([k \in DOMAIN rad |-> RMul(rad[k], PhotonsPer(T.ref, exp, c.area, c.w[k], f))])
Electrons(T, c, exp, rad, f) ==
  RSum([k \in DOMAIN rad |-> RMul(RMul(rad[k], c.qmean[k]), PhotonsPer(T.ref, exp, c.area, c.w[k], f))])
(* the camera is saturated by the photo and thermal electrons               *)
SaturatingUpTo(T, ev, exp, rad, slack, fine) ==
  LET e == RAdd(Electrons(T, ev.c, exp, rad, ev.s.f), Thermal(ev.c, ev.s.temp, exp)) want == RDiv(Top(ev.c), ev.s.K)
  IN RLe(RMul(want, RSub(RDiv(1, slack), fine)), e) /\ RLe(e, RMul(want, RAdd(slack, fine)))
Saturating(T, ev, exp, rad, slack) == SaturatingUpTo(T, ev, exp, rad, slack, RPow(10, -6))
(* the lowest radiance, when not given: a step of the series above the dark *)
StepAboveDark(T, ev, exp, rad) ==
  LET c == ev.c th == Thermal(c, ev.s.temp, exp) sd == RMul(ev.s.K, RSqrt(RAdd(c.v, th))) n == c.height * c.width
      dark == RAdd(RMul(ev.s.K, RAdd(c.dark, th)), ev.s.bo)
      off == RAdd("3/5", RMul(sd, RAdd("2/5", RSqrt(RDiv(36, n)))))                   \* rounding, clipping and chance
      Level4(m) == RDiv(RAdd(m, RDiv(RSub(Top(c), m), ev.g.steps)), ev.s.K)
      e == RAdd(Electrons(T, c, exp, rad, ev.s.f), th) about == IF Len(c.w) = 1 THEN "1000001/1000000" ELSE 2
  IN RLt(0, rad[1]) /\ RLe(RDiv(Level4(RSub(dark, off)), about), e) /\ RLe(e, RMul(about, Level4(RAdd(dark, off))))
(* an even radiance saturates about, unless it has one wavelength           *)
About(ev) == IF Len(ev.c.w) = 1 THEN 1 ELSE 2
Dark(rad) == \A k \in DOMAIN rad : REq(rad[k], 0)
Level(rad) == RMean(rad)

(* the exposures and radiances of the series of a setting                   *)
ExpOk(g, e, k) == NearExp(e, ExpAt(g, k))
LitOk(T, ev, exp, rad, k) ==
  LET g == ev.g IN
  IF g.mode = "exposure" THEN TRUE
  ELSE /\ \A j \in DOMAIN rad : Near(rad[j], rad[1])
       /\ IF g.lmin # "none" /\ g.lmax # "none" THEN Near(rad[1], Lin(g.lmin, g.lmax, g.steps, k))
          ELSE IF g.lmin # "none" /\ k = 1 THEN Near(rad[1], g.lmin)
          ELSE IF g.lmax # "none" /\ g.steps > 1 /\ k = g.steps THEN Near(rad[1], g.lmax)
          ELSE IF g.lmax = "none" /\ g.steps > 1 /\ k = g.steps THEN Saturating(T, ev, exp, rad, About(ev))
          ELSE IF g.lmin = "none" /\ k = 1 THEN StepAboveDark(T, ev, exp, rad)
          ELSE RLt(0, rad[1])

---------------------------------------------------------------------------
PointsOf(ps, kind) == SelectSeq(ps, LAMBDA p : p.kind = kind)
BadPoints(T, ev) ==
  LET g == ev.g tm == PointsOf(ev.pts, "temporal") sp == PointsOf(ev.pts, "spatial") IN
  IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE Sel(\A k \in DOMAIN ev.pts : \A j \in DOMAIN ev.pts[k].rads : ev.pts[k].rads[j].uni, "uneven")
  \cup IF g.mode = "exposure" THEN
       Sel(Len(tm) = g.steps /\ \A k \in DOMAIN tm : ExpOk(g, tm[k].exp, k), "exposures")
       \cup Sel(\A k \in DOMAIN ev.pts : Len(ev.pts[k].rads) = 2 /\ Dark(ev.pts[k].rads[2].rad) /\ ~Dark(ev.pts[k].rads[1].rad), "dark")
       \cup Sel(\A k \in DOMAIN ev.pts : Len(ev.pts[k].rads) > 0 => Saturating(T, ev, g.emax, ev.pts[k].rads[1].rad, 1), "radiance")
       \cup Sel(Len(sp) = 1 /\ \E k \in {Mid(g.steps), ((g.steps - 1) \div 2) + 1} : ExpOk(g, sp[1].exp, k), "mid")
     ELSE
       Sel(Len(tm) = 1 /\ Len(sp) = 1 /\ ExpOk(g, tm[1].exp, 1) /\ ExpOk(g, sp[1].exp, 1), "exposures")
       \cup (IF Len(tm) # 1 \/ Len(sp) # 1 THEN {} ELSE
         LET lit(p) == SelectSeq(p.rads, LAMBDA r : ~Dark(r.rad)) dark(p) == SelectSeq(p.rads, LAMBDA r : Dark(r.rad))
             a == lit(tm[1]) b == lit(sp[1]) n == Len(a)
         IN Sel(Len(dark(tm[1])) = 1 /\ Len(dark(sp[1])) = 1, "dark")
            \cup Sel(n = g.steps /\ \A k \in DOMAIN a : LitOk(T, ev, tm[1].exp, a[k].rad, k), "radiances")
            \cup Sel(\A k \in DOMAIN a : Near(Level(a[k].rad), Lin(Level(a[1].rad), Level(a[n].rad), n, k)), "spacing")
            \cup Sel(n < 2 \/ RLt(Level(a[1].rad), Level(a[n].rad)), "order")
            \cup Sel(Len(b) = 1 /\ \E k \in {Mid(n), ((n - 1) \div 2) + 1} : k \in DOMAIN a /\ Near(Level(b[1].rad), Level(a[k].rad)), "mid"))

---------------------------------------------------------------------------
(* Points of the descriptor against the points of the setting.              *)
PhTol == RAdd(RDiv(5, 10000), RPow(10, -9))
PhClose(a, b) == RClose(a, b, Fine, PhTol)
GrabsAt(T, ev, q) ==
  {i \in DOMAIN ev.grabs : LET x == ev.grabs[i] IN
     /\ NearExp(x.exp, q.exp) /\ RSame(x.K, ev.s.K) /\ RSame(x.bo, ev.s.bo) /\ x.uni
     /\ REq(q.ph, 0) = Dark(x.rad)
     /\ PhClose(q.ph, Photons(T, ev.c, x.exp, x.rad, ev.s.f))}
BadDataset(T, ev) ==
  LET p == ParseText(ev.text) g == ev.g
      place(w) == Place(ev.base, w)
      found(w) == {i \in DOMAIN ev.files : Segments(ev.files[i].path) = place(w)}
      file(w) == ev.files[CHOOSE i \in found(w) : TRUE]
      names == UNION {{p.pts[k].files[j] : j \in DOMAIN p.pts[k].files} : k \in DOMAIN p.pts}
      lines == RSum([k \in DOMAIN p.pts |-> Len(p.pts[k].files)])
      pts == [k \in DOMAIN p.pts |-> p.pts[k]]
      at(kind, lit) == {k \in DOMAIN pts : pts[k].kind = kind /\ REq(pts[k].ph, 0) # lit}
      litgrabs(q) == GrabsAt(T, ev, q)
      want == Points(g)
  IN
  IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE IF p.bad # {} \/ p.loose THEN {"unparsable"}
  ELSE Sel([k \in DOMAIN p.fmt |-> RToInt(p.fmt[k])] = <<ev.c.bits, ev.c.width, ev.c.height>>, "format")
  \cup Sel(p.ver = ev.version, "version")
  (* the points *)
  \cup Sel(Len(pts) = Len(want), "number-of-points")
  \cup Sel(\A i \in DOMAIN want : \E k \in at(want[i].kind, want[i].lit) : NearExp(pts[k].exp, want[i].exp), "missing-point")
  \cup Sel(\A k \in DOMAIN pts : Len(pts[k].files) = (IF pts[k].kind = "temporal" THEN 2 ELSE g.L), "number-of-images")
  \cup (IF g.mode # "exposure" THEN
          LET s == [k \in 1..Cardinality(at("temporal", TRUE)) |-> 0] n == Len(s)
              ph == RSort(SetToSeq({pts[k].ph : k \in at("temporal", TRUE)}))
              per == RSum([k \in DOMAIN ev.c.w |-> PhotonsPer(T.ref, g.emin, ev.c.area, ev.c.w[k], ev.s.f)])
              rad(x) == [k \in DOMAIN ev.c.w |-> RDiv(x, per)]
          IN Sel(Len(ph) = g.steps /\ \A k \in DOMAIN ph : PhClose(ph[k], Lin(ph[1], ph[Len(ph)], Len(ph), k))
                                                           \/ RClose(ph[k], Lin(ph[1], ph[Len(ph)], Len(ph), k), 0, RMul(2, PhTol)), "spacing")
             \cup (IF Len(ph) # g.steps THEN {} ELSE
                   Sel(g.lmin = "none" \/ PhClose(ph[1], RMul(per, g.lmin)), "lowest")
                   \cup Sel(g.lmax = "none" \/ g.steps = 1 \/ PhClose(ph[Len(ph)], RMul(per, g.lmax)), "highest")
                   \cup Sel(g.lmax # "none" \/ g.steps = 1 \/ SaturatingUpTo(T, ev, g.emin, rad(ph[Len(ph)]), About(ev), RAdd(RPow(10, -6), RDiv(PhTol, ph[Len(ph)]))), "saturation")
                   \cup Sel(\A k \in at("spatial", TRUE) : \E j \in {Mid(g.steps), ((g.steps - 1) \div 2) + 1} : REq(pts[k].ph, ph[j]), "mid"))
        ELSE Sel(\A k \in at("temporal", TRUE) : \A i \in litgrabs(pts[k]) : Saturating(T, ev, g.emax, ev.grabs[i].rad, 1), "radiance"))
  (* the images *)
  \cup Sel(\A w \in names : Cardinality(found(w)) = 1 /\ \A i \in found(w) : ev.files[i].ok, "unreadable")
  \cup Sel(REq(Cardinality(names), lines) /\ Len(ev.files) = Cardinality(names), "one-image-per-line")
  \cup UNION {LET gs == GrabsAt(T, ev, pts[k]) IN
              Sel(\A j \in DOMAIN pts[k].files : found(pts[k].files[j]) # {} =>
                    \E i \in gs : ev.grabs[i].dig = file(pts[k].files[j]).dig, "not-the-image-grabbed")
              \cup Sel(\A j \in DOMAIN pts[k].files : found(pts[k].files[j]) # {} =>
                    LET d == file(pts[k].files[j]).dig IN
                    Cardinality({m \in DOMAIN pts[k].files : found(pts[k].files[m]) # {} /\ file(pts[k].files[m]).dig = d})
                    <= Cardinality({i \in gs : ev.grabs[i].dig = d}), "image-used-twice")
              : k \in DOMAIN pts}
  (* loading it *)
  \cup (IF ev.loaded.out # "ok" THEN {"not-loadable"}
        ELSE Sel(Len(ev.loaded.pts) = Len(pts) /\ \A k \in DOMAIN pts : \E i \in DOMAIN ev.loaded.pts :
                   LET x == ev.loaded.pts[i] IN
                   /\ x.kind = pts[k].kind /\ REq(x.exp, pts[k].exp) /\ REq(x.ph, pts[k].ph)
                   /\ (x.kind = "temporal" \/ x.L = g.L)
                   /\ (\A j \in DOMAIN pts[k].files : found(pts[k].files[j]) # {}) =>
                      REq(x.sum, RSum([j \in DOMAIN pts[k].files |-> file(pts[k].files[j]).tot])), "loaded"))

(* settings chosen by the generator.  K0: a gain of the grid nearest to the *)
(* camera's default, at which the black offset is chosen                    *)
Nearest(grid, x) == {k \in DOMAIN grid : \A j \in DOMAIN grid : RLe(RAbs(RSub(grid[k], x)), RAbs(RSub(grid[j], x)))}
BadAuto(T, ev) ==
  IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE LET d == [ev.d EXCEPT !.mean = RAdd(@, Thermal(ev.c, ev.s.temp, ev.emin)), !.v = IF REq(@, 0) THEN 0 ELSE RAdd(@, Thermal(ev.c, ev.s.temp, ev.emin))]
           K0 == IF ev.autoK THEN {ev.Ks[k] : k \in Nearest(ev.Ks, RDiv(1, 10))} ELSE {ev.s.K}
       IN Sel(~ev.autoB \/ \E k \in K0 : OffsetOk(d, ev.bos, k, ev.s.bo), "black-offset")
          \cup Sel(~ev.autoK \/ GainOk(d, ev.Ks, ev.s.K, ev.s.bo), "gain")

Bad(T, ev) == CASE ev.e = "auto" -> BadAuto(T, ev) [] ev.e = "points" -> BadPoints(T, ev) [] ev.e = "dataset" -> BadDataset(T, ev)

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET T == Traces[t] ev == T.ev[l] b == Bad(T, ev) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> T.id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
