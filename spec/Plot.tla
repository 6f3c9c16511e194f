-------------------------------- MODULE Plot --------------------------------
(* The plots of a list of tests.  A test T: id; d, the temporal data; f,    *)
(* its figures; lin, its linearity fit; hist, its histograms; bright and    *)
(* dark, the rows of its summed images (mask: rows of booleans or <<>>) of  *)
(* L and Ld images.  A curve: ax, the title of its axes ("" if there is     *)
(* one only), kind (data, fit, marker), label, the points x, y; fn: "" or   *)
(* "h" (y only), "v" (x only), "freq" (y over the frequencies), or the      *)
(* function that the points lie on.                                         *)
EXTENDS Results, Spectrum

HeadOf(p) ==
  LET H(t, x, y) == [title |-> t, x |-> x, y |-> y]
      up == "$\\mu_{p}$ [mean number of photons/pixel]" cor == "$\\mu_y - \\mu_{y.dark}$ [DN]"
      rel == "Standard deviation and\nrelative presence of each cycle " np == "Number of pixels" pp == "Percentage of pixels [%]" IN
  CASE p = "PlotSensitivity" -> H("Sensitivity", "$\\mu_p$ [mean number of photons/pixel]", cor)
    [] p = "PlotUyDark" -> H("$\\mu_{y.dark}$", "exposure time [ns]", "$\\mu_{y.dark}$ [DN]")
    [] p = "PlotPTC" -> H("Photon Transfer", cor, "$\\sigma^2_y - \\sigma^2_{y.dark}$ [DN$^2$]")
    [] p = "PlotSNR" -> H("Signal to Noise Ratio", up, "SNR")
    [] p = "PlotLinearity" -> H("Linearity", up, cor)
    [] p = "PlotDeviationLinearity" -> H("Deviation linearity", up, "Linearity error LE [%]")
    [] p = "PlotHorizontalSpectrogramPRNU" -> H("Horizontal spectrogram PRNU", "cycles [periods/pixel]", rel \o "[%]")
    [] p = "PlotHorizontalSpectrogramDSNU" -> H("Horizontal spectrogram DSNU", "cycles [periods/pixel]", rel \o "[DN]")
    [] p = "PlotVerticalSpectrogramPRNU" -> H("Vertical spectrogram PRNU", "cycles [periods/pixel]", rel \o "[%]")
    [] p = "PlotVerticalSpectrogramDSNU" -> H("Vertical spectrogram DSNU", "Cycles [periods/pixel]", rel \o "[DN]")
    [] p = "PlotLogarithmicHistogramDSNU" -> H("Logarithmic histogram DSNU", "Dark value [DN]", np)
    [] p = "PlotLogarithmicHistogramPRNU" -> H("Logarithmic histogram PRNU", "Deviation from the mean [DN]", np)
    [] p = "PlotAccumulatedLogHistogramDSNU" -> H("Accumulated log histogram DSNU", "Minimal deviation from the mean [DN]", pp)
    [] p = "PlotAccumulatedLogHistogramPRNU" -> H("Accumulated log histogram PRNU", "Minimal deviation from the mean [DN]", pp)
    [] p = "PlotHorizontalProfile" -> H("Horizontal profile", "", "")
    [] p = "PlotVerticalProfile" -> H("Vertical profile", "", "")
(* the scales of the axes, "" where the property does not say               *)
ScaleOf(p) ==
  CASE p = "PlotSNR" -> <<"log", "log">>
    [] p \in {"PlotHorizontalSpectrogramPRNU", "PlotHorizontalSpectrogramDSNU", "PlotVerticalSpectrogramPRNU", "PlotVerticalSpectrogramDSNU",
              "PlotLogarithmicHistogramDSNU", "PlotLogarithmicHistogramPRNU", "PlotAccumulatedLogHistogramDSNU",
              "PlotAccumulatedLogHistogramPRNU"} -> <<"linear", "log">>
    [] OTHER -> <<"linear", "linear">>
Standard == {"PlotPTC", "PlotSNR", "PlotSensitivity", "PlotUyDark", "PlotLinearity", "PlotDeviationLinearity",
             "PlotHorizontalSpectrogramPRNU", "PlotHorizontalSpectrogramDSNU", "PlotVerticalSpectrogramPRNU",
             "PlotVerticalSpectrogramDSNU", "PlotLogarithmicHistogramDSNU", "PlotLogarithmicHistogramPRNU",
             "PlotAccumulatedLogHistogramDSNU", "PlotAccumulatedLogHistogramPRNU", "PlotHorizontalProfile",
             "PlotVerticalProfile"}

Curve(kind, label, x, y) == [ax |-> "", kind |-> kind, label |-> label, x |-> x, y |-> y, fn |-> ""]
Fn(label, fn) == [ax |-> "", kind |-> "fit", label |-> label, x |-> <<>>, y |-> <<>>, fn |-> fn]
HLine(label, v) == [Curve("marker", label, <<>>, <<v, v>>) EXCEPT !.fn = "h"]
VLine(v) == [Curve("marker", "*", <<v, v>>, <<>>) EXCEPT !.fn = "v"]      \* any label
At(s, i) == s[i + 1]
I(T, name) == T.f[name]

(* images                                                                   *)
Diff(a, b) == [y \in DOMAIN a |-> RVSub(a[y], b[y])]
Over(a, L) == [y \in DOMAIN a |-> RVScale(a[y], RDiv(1, L))]
Bright(T) == Over(Diff(T.bright, T.dark), T.L)
Dark(T) == Over(T.dark, T.Ld)
Valid(img, mask) == IF mask = <<>> THEN RFlat(img) ELSE RFlat([y \in DOMAIN img |-> ValidOf(img[y], mask[y])])
Amplitudes(img, mask, turned) ==
  LET i == IF turned THEN Turned(img) ELSE img m == IF turned THEN TurnedMask(mask) ELSE mask IN
  RVSqrt([k \in DOMAIN Power(Lines(i, m), 1) |-> RMax(0, Power(Lines(i, m), 1)[k])])
(* a profile: of every column with a valid pixel, its place and value       *)
Columns(img, mask) == {x \in 1..Len(img[1]) : mask = <<>> \/ \E y \in DOMAIN img : ~mask[y][x]}
Column(img, mask, x) == LET k == SelectSeq([y \in DOMAIN img |-> y], LAMBDA y : mask = <<>> \/ ~mask[y][x]) IN
                        [j \in DOMAIN k |-> img[k[j]][x]]
MidLine(img, mask) == LET m == (Len(img) \div 2) + 1 IN
                      IF mask # <<>> /\ (\A x \in DOMAIN mask[m] : mask[m][x]) THEN m + 1 ELSE m
Places(img, mask, typ) == LET S == IF typ = "Mid" /\ mask # <<>> THEN {x \in 1..Len(img[1]) : ~mask[MidLine(img, mask)][x]} ELSE Columns(img, mask)
                          IN SelectSeq([x \in 1..Len(img[1]) |-> x], LAMBDA x : x \in S)
ValueAt(img, mask, typ, x) ==
  LET c == Column(img, mask, x) IN
  CASE typ = "Mean" -> RMean(c) [] typ = "Min" -> RMinS(c) [] typ = "Max" -> RMaxS(c) [] typ = "Mid" -> img[MidLine(img, mask)][x]
Profile(img, mask, typ) == LET k == Places(img, mask, typ) IN
  [at |-> [j \in DOMAIN k |-> k[j] - 1], v |-> [j \in DOMAIN k |-> ValueAt(img, mask, typ, k[j])]]
Profiles(T, turned) ==
  LET m == IF turned THEN TurnedMask(T.mask) ELSE T.mask
      C(ax, kind, img, typ) == LET i == IF turned THEN Turned(img) ELSE img q == Profile(i, m, typ) IN
        [ax |-> ax, kind |-> kind, label |-> typ, x |-> IF turned THEN q.v ELSE q.at, y |-> IF turned THEN q.at ELSE q.v, fn |-> ""] IN
  [k \in 1..8 |-> LET typ == <<"Mid", "Min", "Max", "Mean">>[((k - 1) % 4) + 1] IN
                  IF k <= 4 THEN C("PRNU", "marker", Bright(T), typ) ELSE C("DSNU", "data", Dark(T), typ)]

(* the ratio of signal and noise as functions of the photons                *)
Signal_e(T, x) == RMul(RDiv(I(T, "QE"), 100), x)
Snr(T, x, more) == LET s == Signal_e(T, x) k == I(T, "K") IN
  RDiv(s, RSqrt(RAdd(more, RAdd(s, RAdd(RMul(I(T, "sigma_d"), I(T, "sigma_d")), RDiv(RDiv(1, 12), RMul(k, k)))))))
Total(T, x) == LET p == RMul(RDiv(I(T, "PRNU1288"), 100), Signal_e(T, x)) IN
  Snr(T, x, RAdd(RMul(I(T, "DSNU1288"), I(T, "DSNU1288")), RMul(p, p)))
Value(T, fn, x) == CASE fn = "theory" -> Snr(T, x, 0) [] fn = "ideal" -> RSqrt(x) [] fn = "total" -> Total(T, x)

Spectrogram(T, turned, prnu) ==
  LET img == IF prnu THEN Bright(T) ELSE Dark(T)
      m == RMean(Valid(img, T.mask))
      c == IF prnu THEN RDiv(100, m) ELSE 1 IN
  <<[Curve("data", "Data", <<>>, RVScale(Amplitudes(img, T.mask, turned), c)) EXCEPT !.fn = "freq"],
   IF prnu THEN HLine("$PRNU_{1288}$", I(T, "PRNU1288")) ELSE HLine("$DSNU_{1288.DN}$", I(T, "DSNU1288_DN")),
   IF prnu THEN HLine("$\\sigma^2_{y.stack}$", RDiv(RMul(100, RSqrt(I(T, "sigma_2_y_stack"))), m))
   ELSE HLine("$\\sigma^2_{y.stack.dark}$", RSqrt(I(T, "sigma_2_y_stack_dark")))>>

Curves(p, T) ==
  LET d == T.d S == Signal(T.d) N == Noise(T.d)
      Ends(x, y, i, j) == Curve("marker", "Fit range", <<At(x, i), At(x, j)>>, <<At(y, i), At(y, j)>>)
      si == I(T, "index_sensitivity_min") sj == I(T, "index_sensitivity_max")
      li == I(T, "index_linearity_min") lj == I(T, "index_linearity_max") IN
  CASE p = "PlotSensitivity" -> <<Curve("data", "Data", d.u_p, S), Curve("fit", "Fit", d.u_p, RVScale(d.u_p, I(T, "R"))),
                                 Ends(d.u_p, S, si, sj)>>
    [] p = "PlotUyDark" -> <<Curve("data", "Data", d.texp, d.u_ydark)>>
    [] p = "PlotPTC" -> <<Curve("data", "Data", S, N), Curve("fit", "Fit", S, RVScale(S, I(T, "K"))),
                         Curve("marker", "Saturation", <<At(S, I(T, "index_u_ysat"))>>, <<At(N, I(T, "index_u_ysat"))>>),
                         Ends(S, N, si, sj)>>
    [] p = "PlotSNR" -> LET k == SelectSeq([j \in DOMAIN S |-> j], LAMBDA j : ~REq(d.s2_y[j], 0)) IN
                        <<Curve("data", "Data", [j \in DOMAIN k |-> d.u_p[k[j]]], [j \in DOMAIN k |-> RDiv(S[k[j]], RSqrt(d.s2_y[k[j]]))]),
                         Fn("Theoretical", "theory"), Fn("Ideal", "ideal"), Fn("Total SNR", "total"),
                         VLine(I(T, "u_p_min")), VLine(I(T, "u_p_sat"))>>
    [] p = "PlotLinearity" -> <<Curve("data", "Data", d.u_p, S), Ends(d.u_p, S, li, lj),
                               Curve("fit", "Fit", d.u_p, RVShift(RVScale(d.u_p, T.lin.a), T.lin.b))>>
    [] p = "PlotDeviationLinearity" -> <<Curve("data", "Data", Part(d.u_p, li, lj), Part(T.lin.dev, li, lj)),
                                        Ends(d.u_p, T.lin.dev, li, lj)>>
    [] p = "PlotHorizontalSpectrogramPRNU" -> Spectrogram(T, FALSE, TRUE)
    [] p = "PlotHorizontalSpectrogramDSNU" -> Spectrogram(T, FALSE, FALSE)
    [] p = "PlotVerticalSpectrogramPRNU" -> Spectrogram(T, TRUE, TRUE)
    [] p = "PlotVerticalSpectrogramDSNU" -> Spectrogram(T, TRUE, FALSE)
    [] p = "PlotLogarithmicHistogramDSNU" -> LET z == T.hist.DSNU IN <<Curve("data", "Data", z.bins, z.values), Curve("fit", "Model", z.bins, z.model)>>
    [] p = "PlotLogarithmicHistogramPRNU" -> LET z == T.hist.PRNU IN <<Curve("data", "Data", z.bins, z.values), Curve("fit", "Model", z.bins, z.model)>>
    [] p = "PlotAccumulatedLogHistogramDSNU" -> <<Curve("data", "Data", T.hist.DSNU_accumulated.bins, T.hist.DSNU_accumulated.values)>>
    [] p = "PlotAccumulatedLogHistogramPRNU" -> <<Curve("data", "Data", T.hist.PRNU_accumulated.bins, T.hist.PRNU_accumulated.values)>>
    [] p = "PlotHorizontalProfile" -> Profiles(T, FALSE)
    [] p = "PlotVerticalProfile" -> Profiles(T, TRUE)
(* the figures a plot is made of                                            *)
Needs(p) ==
  LET ix(a) == {"index_" \o a \o "_min", "index_" \o a \o "_max"} IN
  CASE p = "PlotSensitivity" -> {"R"} \cup ix("sensitivity")
    [] p = "PlotPTC" -> {"K", "index_u_ysat"} \cup ix("sensitivity")
    [] p = "PlotSNR" -> {"u_p_min", "u_p_sat", "QE", "K", "sigma_d", "DSNU1288", "PRNU1288"}
    [] p = "PlotLinearity" -> {"linearity"} \cup ix("linearity")
    [] p = "PlotDeviationLinearity" -> {"linearity"} \cup ix("linearity")
    [] p \in {"PlotHorizontalSpectrogramPRNU", "PlotVerticalSpectrogramPRNU"} -> {"PRNU1288", "sigma_2_y_stack"}
    [] p \in {"PlotHorizontalSpectrogramDSNU", "PlotVerticalSpectrogramDSNU"} -> {"DSNU1288_DN", "sigma_2_y_stack_dark"}
    [] p = "PlotLogarithmicHistogramDSNU" -> {"DSNU"}
    [] p = "PlotLogarithmicHistogramPRNU" -> {"PRNU"}
    [] p = "PlotAccumulatedLogHistogramDSNU" -> {"DSNU_accumulated"}
    [] p = "PlotAccumulatedLogHistogramPRNU" -> {"PRNU_accumulated"}
    [] OTHER -> {}
(* the driver: a figure per plot, in it the curves of every test, in order  *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Figure(plot, tests, C(_, _)) == Cat([j \in DOMAIN tests |-> LET c == C(plot, tests[j]) IN [i \in DOMAIN c |-> [test |-> tests[j], c |-> c[i]]]])
Figures(plots, tests, C(_, _)) == [k \in DOMAIN plots |-> Figure(plots[k], tests, C)]
=============================================================================
