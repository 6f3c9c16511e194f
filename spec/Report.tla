------------------------------- MODULE Report -------------------------------
(* Reports, as a machine.  A caller holds dictionaries of operation points, *)
(* which it may use for several points and change in between; a report has  *)
(* a folder and the points added so far, each as it was when it was added,  *)
(* over a combination x of data and arguments; generating writes the        *)
(* document of the report into its folder.                                  *)
(* NONE is an entry without a value, texts are strings, figures are in Rat. *)
EXTENDS Rat, SequencesExt
NONE == "<none>"
Shown(v) == IF v = NONE THEN "-" ELSE v
Id(k) == "OP" \o ToString(k)

(* the machine                                                              *)
NewReport(folder, info) == [folder |-> folder, info |-> info, pts |-> <<>>]
Point(op, x, k) == [id |-> Id(k), name |-> IF op.name \in {NONE, ""} THEN Id(k) ELSE op.name,
                    summary |-> op.summary, cs |-> op.cs, tp |-> op.tp, x |-> x]
AddPoint(rep, op, x) == [rep EXCEPT !.pts = Append(@, Point(op, x, Len(@) + 1))]

(* the document                                                             *)
Lookup(pairs, key) == LET ks == {k \in DOMAIN pairs : pairs[k][1] = key} IN
                      IF ks = {} THEN "-" ELSE Shown(pairs[CHOOSE k \in ks : TRUE][2])
General(b, setup) ==
  <<<<"Vendor", Shown(b.vendor)>>, <<"Model", Shown(b.model)>>, <<"Data type", Shown(b.data_type)>>,
    <<"Sensor type", Shown(b.sensor_type)>>, <<"Diagonal", Shown(b.sensor_diagonal)>>,
    <<"Lens category", Shown(b.lens_category)>>, <<"Resolution", Shown(b.resolution) \o " pixels">>,
    <<"Pixel size", Shown(b.pixel_size) \o " $\\mu m$">>>>
  \o (CASE b.sensor_type = "CCD" -> <<<<"Readout type", Shown(b.readout_type)>>, <<"Transfer type", Shown(b.transfer_type)>>>>
        [] b.sensor_type = "CMOS" -> <<<<"Shutter type", Shown(b.shutter_type)>>,
                                       <<"Overlap capabilities", Shown(b.overlap_capabilities)>>>>
        [] OTHER -> <<>>)
  \o <<<<"Maximum readout rate", Shown(b.maximum_readout_rate)>>,
       <<"Dark current compensation", Shown(b.dark_current_compensation)>>, <<"Interface type", Shown(b.interface_type)>>>>
  \o [k \in DOMAIN setup |-> <<setup[k][1], Shown(setup[k][2])>>]

(* the rows of the summary sheet: figure, symbol, digits, unit; opt: a      *)
(* missing value is shown as "-"                                            *)
Row(f, sym, dig, unit) == [f |-> f, sym |-> sym, dig |-> dig, unit |-> unit, opt |-> FALSE]
Opt(f, sym, dig, unit) == [Row(f, sym, dig, unit) EXCEPT !.opt = TRUE]
Rows == <<
  Row("QE", "$\\eta$", 2, "\\%"),
  Row("K", "K", 3, "$DN/e^-$"), Row("inverse_K", "1/K", 3, "$e^-/DN$"),
  Row("sigma_d", "$\\sigma_d$", 3, "$e^-$"), Row("sigma_y_dark", "$\\sigma_{y.dark}$", 3, "DN"),
  Row("SNR_max", "$SNR_{max}$", 0, ""), Row("SNR_max_dB", "", 2, "dB"), Row("SNR_max_bit", "", 1, "bit"),
  Row("inverse_SNR_max", "$SNR_{max}^{-1}$", 3, "\\%"),
  Opt("u_p_min", "$\\mu_{p.min}$", 3, "$p$"), Opt("u_p_min_area", "$\\mu_{p.min.area}$", 3, "$p/\\mu m^2$"),
  Row("u_e_min", "$\\mu_{e.min}$", 3, "$e^-$"), Opt("u_e_min_area", "$\\mu_{e.min.area}$", 3, "$e^-/\\mu m^2$"),
  Row("u_p_sat", "$\\mu_{p.sat}$", 0, "$p$"), Opt("u_p_sat_area", "$\\mu_{p.sat.area}$", 3, "$p/\\mu m^2$"),
  Row("u_e_sat", "$\\mu_{e.sat}$", 0, "$e^-$"), Opt("u_e_sat_area", "$\\mu_{e.sat.area}$", 0, "$e^-/\\mu m^2$"),
  Row("DR", "DR", 0, ""), Row("DR_dB", "", 1, "dB"),
  Row("DSNU1288", "$DSNU_{1288}$", 1, "$e^-$"), Row("DSNU1288_row", "$DSNU_{1288.row}$", 1, "$e^-$"),
  Row("DSNU1288_col", "$DSNU_{1288.col}$", 1, "$e^-$"), Row("DSNU1288_pixel", "$DSNU_{1288.pixel}$", 1, "$e^-$"),
  Row("PRNU1288", "$PRNU_{1288}$", 1, "\\%"), Row("PRNU1288_row", "$PRNU_{1288.row}$", 1, "\\%"),
  Row("PRNU1288_col", "$PRNU_{1288.col}$", 1, "\\%"), Row("PRNU1288_pixel", "$PRNU_{1288.pixel}$", 1, "\\%"),
  Row("LE_min", "$LE_{min}$", 3, "\\%"), Row("LE_max", "$LE_{max}$", 3, "\\%"),
  Opt("u_I_mean", "$\\mu_{I.mean}$", 3, "$e^-/s$"), Opt("u_I_mean_DN", "", 3, "$DN/s$"),
  Opt("u_I_var", "$\\mu_{I.var}$", 3, "$e^-/s$"), Opt("u_I_var_DN", "", 3, "$DN/s$")>>

(* a cell: txt as written, num its number, dec its decimals                 *)
CellOk(row, v, c) ==
  CASE v \in {"none", "nan"} -> c.txt = "-" \/ (~row.opt /\ c.num = "nan")
    [] v \in {"inf", "-inf"} -> c.num = v
    [] OTHER -> /\ RIsFin(c.num) /\ c.dec = row.dig
                /\ RClose(c.num, v, RPow(10, -12), RMul("500001/1000000", RPow(10, 0 - row.dig)))
RowOk(row, v, c) == c.sym = row.sym /\ c.unit = row.unit /\ CellOk(row, v, c)

(* the standard plots and those shown                                       *)
Plots == {"PlotPTC", "PlotSNR", "PlotSensitivity", "PlotUyDark", "PlotLinearity", "PlotDeviationLinearity",
          "PlotHorizontalSpectrogramPRNU", "PlotHorizontalSpectrogramDSNU", "PlotVerticalSpectrogramPRNU",
          "PlotVerticalSpectrogramDSNU", "PlotLogarithmicHistogramDSNU", "PlotLogarithmicHistogramPRNU",
          "PlotAccumulatedLogHistogramDSNU", "PlotAccumulatedLogHistogramPRNU", "PlotHorizontalProfile",
          "PlotVerticalProfile"}
Short == {"PlotPTC", "PlotSNR"}
Pictures(pt) == {pt.id \o "/" \o p \o ".pdf" : p \in IF pt.summary THEN Short ELSE Plots}
=============================================================================
