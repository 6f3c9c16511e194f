----------------------------- MODULE Trace_Plot -----------------------------
(* Recorded calls of Plotting1288(tests).plot(plots): figs, the figures in  *)
(* order; given, the ids before and ids those after; data[n]: the tests.    *)
(* old and now: the figures that were open before, then and after it.       *)
(* custom[p]: plots of the user's own (name, title, ...), log: their calls. *)
EXTENDS Plot, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

E(k) == RPow(10, -k)
Sel(c, name) == IF c THEN {} ELSE {name}
Close(a, b, at) == RSame(a, b) \/ (RIsFin(a) /\ RIsFin(b) /\ RClose(a, b, E(9), at))
CloseS(a, b, at) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], at)
MaxOf(s) == IF s = <<>> THEN 0 ELSE RMaxS(RVAbs([i \in DOMAIN s |-> IF RIsFin(s[i]) THEN s[i] ELSE 0]))
Rounding(s) == RMul(E(12), MaxOf(s))
Grid(T, x) ==
  LET a == I(T, "u_p_min") b == I(T, "u_p_sat") st == RDiv(RSub(b, a), 100) IN
  /\ Len(x) \in {100, 101} /\ \A i \in DOMAIN x : RClose(x[i], RAdd(a, RMul(i - 1, st)), E(9), RMul(E(9), RAbs(b)))
(* (k-th frequency of n: see C14 for which of the two is right)             *)
Freqs(x, T, turned) ==
  LET i == IF turned THEN Turned(T.dark) ELSE T.dark
      m == IF turned THEN TurnedMask(T.mask) ELSE T.mask
      N == Len(Lines(i, m)[1]) IN
  /\ Len(x) = NFreq(N)
  /\ \/ \A k \in DOMAIN x : RClose(x[k], Freq(k - 1, N), E(12), 0)
     \/ \A k \in DOMAIN x : RClose(x[k], Freq(k - 1, 2 * NFreq(N)), E(12), 0)
Match(p, c, T, ln) ==
  /\ ln.kind = c.kind /\ (c.label = "*" \/ ln.label = c.label)
  /\ CASE c.fn = "" -> CloseS(ln.x, c.x, Rounding(c.x)) /\ CloseS(ln.y, c.y, Rounding(c.y))
       [] c.fn = "h" -> CloseS(ln.y, c.y, E(12))
       [] c.fn = "v" -> CloseS(ln.x, c.x, E(12))
       [] c.fn = "freq" -> /\ Freqs(ln.x, T, p \in {"PlotVerticalSpectrogramPRNU", "PlotVerticalSpectrogramDSNU"})
                           /\ CloseS(ln.y, c.y, RAdd(Rounding(c.y), RMul(E(12), RMul(MaxOf(RFlat(T.bright)), IF ln.y = <<>> THEN 1 ELSE 100))))
       [] OTHER -> Grid(T, ln.x) /\ Len(ln.y) = Len(ln.x) /\ \A i \in DOMAIN ln.x : Close(ln.y[i], Value(T, c.fn, ln.x[i]), 0)
Plottable(p, T) ==
  /\ \A k \in DOMAIN T.bad : T.bad[k] \notin Needs(p)
  /\ p = "PlotSNR" => /\ RIsFin(I(T, "u_p_min")) /\ RIsFin(I(T, "u_p_sat")) /\ RLt(0, I(T, "u_p_min")) /\ RLt(I(T, "u_p_min"), I(T, "u_p_sat"))
                      /\ RLt(0, I(T, "QE")) /\ \A k \in DOMAIN T.d.s2_y : RLe(0, T.d.s2_y[k])
                      /\ RIsFin(I(T, "sigma_d"))
  /\ p = "PlotHorizontalProfile" => MidLine(T.dark, T.mask) <= Len(T.dark)
  /\ p = "PlotVerticalProfile" => MidLine(Turned(T.dark), TurnedMask(T.mask)) <= Len(T.dark[1])
  /\ p \in {"PlotHorizontalSpectrogramPRNU", "PlotVerticalSpectrogramPRNU"} => T.bright_ok
LinesOf(fig) == Cat([a \in DOMAIN fig.axes |-> [k \in DOMAIN fig.axes[a].lines |-> [ax |-> fig.axes[a].title, ln |-> fig.axes[a].lines[k]]]])
(* the profiles of every test are in view: the mean of the mean profile     *)
InView(p, fig, T) ==
  LET turned == p = "PlotVerticalProfile" Q == Profiles(T, turned)
      MeanOf(ax) == LET c == CHOOSE c \in {Q[k] : k \in DOMAIN Q} : c.ax = ax /\ c.label = "Mean" IN RMean(IF turned THEN c.x ELSE c.y) IN
  \A a \in DOMAIN fig.axes : fig.axes[a].title \in {"PRNU", "DSNU"} =>
    LET v == MeanOf(fig.axes[a].title) w == fig.axes[a].view lo == w[IF turned THEN 1 ELSE 3] hi == w[IF turned THEN 2 ELSE 4] IN
    RLt(0, v) => /\ RLe(RMinS(<<lo, hi>>), v) /\ RLe(v, RMaxS(<<lo, hi>>))
(* the highest value of every histogram is in view                          *)
Peaks(p) == CASE p = "PlotLogarithmicHistogramDSNU" -> "DSNU" [] p = "PlotLogarithmicHistogramPRNU" -> "PRNU" [] OTHER -> ""
PeakInView(p, fig, T) == Len(fig.axes) = 1 => RLe(MaxOf(T.hist[Peaks(p)].values), fig.axes[1].view[4])
(* the ideal ratio of every test is in view, up to its saturation           *)
IdealInView(fig, T) == Len(fig.axes) = 1 =>
  LET a == I(T, "u_p_min") b == I(T, "u_p_sat") IN RLe(RMul(RSqrt(RAdd(a, RMul(RDiv(98, 100), RSub(b, a)))), RSub(1, E(9))), fig.axes[1].view[4])
(* all the points that the scales can show are in view, across and (where   *)
(* the property does not ask for less) along the axis of the values         *)
Within(v, lo, hi) == RLe(RMinS(<<lo, hi>>), v) /\ RLe(v, RMaxS(<<lo, hi>>))
Shows(v, scale) == RIsFin(v) /\ (scale = "log" => RLt(0, v))
PointsInView(p, ax) ==
  \A k \in DOMAIN ax.lines : LET ln == ax.lines[k] w == ax.view IN ln.kind = "data" =>
    \A i \in DOMAIN ln.x : (i \in DOMAIN ln.y /\ Shows(ln.x[i], ax.scale[1]) /\ Shows(ln.y[i], ax.scale[2])) =>
      /\ Within(ln.x[i], w[1], w[2])
      /\ (p # "PlotSNR" /\ Peaks(p) = "") => Within(ln.y[i], w[3], w[4])
(* plots of the user's own                                                  *)
Own(p, T) == p \in DOMAIN T.custom
CurvesOf(p, T, D) == IF Own(p, T) THEN <<Curve("data", "Mine", D.d.u_p, D.d.u_y)>> ELSE Curves(p, D)
HeadsOf(p, T) == IF Own(p, T) THEN LET c == T.custom[p] IN [title |-> IF c.title # "" THEN c.title ELSE c.name, x |-> c.xlabel, y |-> c.ylabel]
                 ELSE HeadOf(p)
ScalesOf(p, T) == IF Own(p, T) THEN LET c == T.custom[p] IN <<IF c.xscale = "" THEN "linear" ELSE c.xscale, IF c.yscale = "" THEN "linear" ELSE c.yscale>>
                  ELSE ScaleOf(p)
LogWanted(ev, T) == Cat([k \in DOMAIN ev.plots |-> IF ~Own(ev.plots[k], T) THEN <<>>
                          ELSE [j \in 1..(Len(ev.ids) + 1) |-> <<ev.plots[k], IF j <= Len(ev.ids) THEN ev.ids[j] ELSE "end">>]])
BadFig(p, fig, ev, T) ==
  LET want == Figure(p, [j \in DOMAIN ev.tests |-> j], LAMBDA q, j : CurvesOf(q, T, T.data[ev.tests[j]]))
      have == LinesOf(fig) h == HeadsOf(p, T)
      Found(w) == \E k \in DOMAIN have : /\ have[k].ln.id = ev.ids[w.test] /\ w.c.ax \in {"", have[k].ax}
                                         /\ Match(p, w.c, T.data[ev.tests[w.test]], have[k].ln) IN
  Sel(fig.title = h.title, "title-" \o p)
  \cup Sel(\A a \in DOMAIN fig.axes : fig.axes[a].scale = ScalesOf(p, T), "scale-" \o p)
  \cup (IF Peaks(p) = "" THEN {} ELSE Sel(\A j \in DOMAIN ev.tests : PeakInView(p, fig, T.data[ev.tests[j]]), "view-" \o p))
  \cup (IF p # "PlotSNR" THEN {} ELSE Sel(\A j \in DOMAIN ev.tests : IdealInView(fig, T.data[ev.tests[j]]), "view-" \o p))
  \cup (IF p \in {"PlotHorizontalProfile", "PlotVerticalProfile"} THEN {}
        ELSE Sel(\A a \in DOMAIN fig.axes : PointsInView(p, fig.axes[a]), "view-" \o p))
  \cup Sel((h.x = "" /\ ~Own(p, T)) \/ (Len(fig.axes) = 1 /\ fig.axes[1].x = h.x /\ fig.axes[1].y = h.y), "axes-" \o p)
  \cup Sel(Len(have) = Len(want), "count-" \o p)
  \cup (IF p \notin {"PlotHorizontalProfile", "PlotVerticalProfile"} THEN {}
        ELSE Sel(\A j \in DOMAIN ev.tests : InView(p, fig, T.data[ev.tests[j]]), "view-" \o p))
  \cup {"curve-" \o p \o "-" \o w.c.label : w \in {want[k] : k \in {k \in DOMAIN want : ~Found(want[k])}}}
Bad(ev, T) ==
  LET N == Len(ev.plots)
      ok(p) == Own(p, T) \/ \A j \in DOMAIN ev.tests : Plottable(p, T.data[ev.tests[j]])
      all == IF N = 0 THEN Standard ELSE {ev.plots[k] : k \in 1..N}
      Named(f) == {p \in Standard : HeadOf(p).title = f.title} IN
  IF \E p \in all : ~ok(p) THEN {}
  ELSE IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE Sel(ev.h = T.h0, "data-modified")
       \cup Sel(ev.now = ev.old, "other-figures")
       \cup Sel(ev.log = LogWanted(ev, T), "calls")
       \cup Sel(\A j \in DOMAIN ev.ids : ev.ids[j] # "" /\ (ev.given[j] = "" \/ ev.given[j] = ev.ids[j]), "identifier")
       \cup Sel(\A i, j \in DOMAIN ev.ids : (ev.objs[i] # ev.objs[j] /\ "" \in {ev.given[i], ev.given[j]}) => ev.ids[i] # ev.ids[j], "identifier-shared")
       \cup (IF N > 0
             THEN IF Len(ev.figs) # N THEN {"figures"} ELSE UNION {BadFig(ev.plots[k], ev.figs[k], ev, T) : k \in 1..N}
             ELSE Sel(Len(ev.figs) = 16 /\ {HeadOf(p).title : p \in Standard} = {ev.figs[k].title : k \in DOMAIN ev.figs}, "standard-figures")
                  \cup UNION {UNION {BadFig(p, ev.figs[k], ev, T) : p \in Named(ev.figs[k])} : k \in DOMAIN ev.figs})

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l], Traces[t]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
