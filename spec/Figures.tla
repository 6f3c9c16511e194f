------------------------------ MODULE Figures ------------------------------
(* What an evaluation may report: ev is a record of the temporal data d,    *)
(* the spatial data sp, the arguments forced and area (<<>> when not        *)
(* given), res[name] the outcome o and value v of reading a result, and tol *)
(* how far the variances of d and sp may be from those the code had.        *)
(* Each operator is the set of the wrong figures of one part.               *)
EXTENDS Results

E(k) == RPow(10, -k)
Sel(c, name) == IF c THEN {} ELSE {name}
V(ev, n) == IF ev.res[n].o = "ok" THEN ev.res[n].v ELSE "nan"
Near(ev, n, want, rt, at) == Sel(ev.res[n].o = "ok" /\ RClose(ev.res[n].v, want, rt, at), n)
MaxAbs(s) == RMaxS(RVAbs(s))

(* a signal so close to the limit that rounding decides; with 20 and 100    *)
(* as saturation signal the limits are exact numbers                        *)
Exact(d, sat) == \E x \in {20, 100} : REq(At0(Signal(d), sat), x)
Amb(d, sat, pc) == ~Exact(d, sat) /\
  \E i \in Idx0(d.u_y) : RLe(RAbs(RSub(At0(Signal(d), i), Level(d, sat, pc))), RMul(E(9), MaxAbs(Signal(d))))

BadIdx(ev) ==
  LET d == ev.d sat == SatIndex(d, ev.forced) IN
  Sel(ev.res.index_u_ysat.o = "ok" /\ REq(V(ev, "index_u_ysat"), sat), "index_u_ysat")
  \cup Near(ev, "index_sensitivity_min", 0, 0, 0)
  \cup (IF Amb(d, sat, 70) \/ AtMost(d, sat, 70) = {} THEN {} ELSE Near(ev, "index_sensitivity_max", SensMax(d, sat), 0, 0))
  \cup (IF Amb(d, sat, 5) \/ AtLeast(d, sat, 5) = {} THEN {} ELSE Near(ev, "index_linearity_min", LinMin(d, sat), 0, 0))
  \cup (IF Amb(d, sat, 95) \/ AtMost(d, sat, 95) = {} THEN {} ELSE Near(ev, "index_linearity_max", LinMax(d, sat), 0, 0))

(* an iterative solver stops at a relative change of 1.5e-8 of the sum of   *)
(* squares: it may miss the minimum by that root times the residual         *)
Solver == RDiv(1, 2000)
AbsSlope0(x, y) == RDiv(RSum(RVAbs(RVMul(x, y))), RSumSq(x))
BadSens(ev) ==
  LET d == ev.d sat == SatIndex(d, ev.forced) IN
  IF Amb(d, sat, 70) \/ AtMost(d, sat, 70) = {} THEN {} ELSE
  LET m == SensMax(d, sat)
      x == Part(d.u_p, 0, m) y == Part(Signal(d), 0, m) z == Part(Noise(d), 0, m)
      r == V(ev, "R") k == V(ev, "K") qe == V(ev, "QE") sy == V(ev, "sigma_y_dark")
      pmin == V(ev, "u_p_min") emin == V(ev, "u_e_min") psat == V(ev, "u_p_sat") esat == V(ev, "u_e_sat")
      snr == V(ev, "SNR_max") dr == V(ev, "DR")
      Area(n, q) == IF HasArea(ev.area) THEN Near(ev, n, RDiv(q, ev.area[1]), E(9), 0) ELSE Sel(ev.res[n].o = "none", n)
      T(a, c) == RAdd(RMul(E(6), AbsSlope0(a, c)), RMul(Solver, RSqrt(RDiv(Sq([a |-> Slope0(a, c), b |-> 0], a, c), RSumSq(a)))))
  IN Near(ev, "R", Slope0(x, y), 0, T(x, y))
  \cup Near(ev, "K", Slope0(y, z), 0, RAdd(T(y, z), RDiv(RMul(ev.tol, RSum(RVAbs(y))), RSumSq(y))))
  \cup Near(ev, "inverse_K", RDiv(1, k), E(9), 0)
  \cup Near(ev, "QE", QEff(r, k), E(9), 0)
  \cup Near(ev, "u_p_min", UPMin(qe, sy, k), E(9), 0)
  \cup Near(ev, "u_e_min", Electrons(qe, pmin), E(9), 0)
  \cup Near(ev, "u_p_sat", At0(d.u_p, sat), E(12), 0)
  \cup Near(ev, "u_e_sat", Electrons(qe, psat), E(9), 0)
  \cup Near(ev, "SNR_max", RSqrt(esat), E(9), 0)
  \cup Near(ev, "SNR_max_dB", DB(snr), E(9), E(9)) \cup Near(ev, "SNR_max_bit", RLog2(snr), E(9), E(9))
  \cup Near(ev, "inverse_SNR_max", RDiv(100, snr), E(9), 0)
  \cup Near(ev, "DR", RDiv(psat, pmin), E(9), 0) \cup Near(ev, "DR_dB", DB(dr), E(9), E(9))
  \cup Area("u_p_min_area", pmin) \cup Area("u_e_min_area", emin)
  \cup Area("u_p_sat_area", psat) \cup Area("u_e_sat_area", esat)

(* the gain itself is looked at in "sens"; without signal in the range no gain is the best *)
HasK(ev) == ev.res.K.o = "ok" /\ RIsFin(ev.res.K.v) /\ ~REq(ev.res.K.v, 0)
BadDark(ev) ==
  LET d == ev.d k == V(ev, "K") sy == V(ev, "sigma_y_dark")
      mdn == V(ev, "u_I_mean_DN") vdn == V(ev, "u_I_var_DN") IN
  (IF ~HasK(ev) THEN {}
   ELSE Near(ev, "sigma_d", SigmaD(sy, k), E(9), 0)
        \cup Near(ev, "u_I_var", RDiv(vdn, k), E(9), 0) \cup Near(ev, "u_I_mean", RDiv(mdn, k), E(9), 0))
  \cup IF ~Fitted(d) THEN
         Sel(ev.res.sigma_y_dark.o = "ok" /\ RClose(RMul(sy, sy), SigmaYDark2(d), E(12), ev.tol), "sigma_y_dark")
         \cup Near(ev, "u_I_mean_DN", "nan", 0, 0) \cup Near(ev, "u_I_var_DN", "nan", 0, 0)
       ELSE
         LET top == MaxAbs(d.texp)
             g == RDiv(RMul(RMul(top, top), Len(d.texp)), Line(d.texp, d.texp).sxx)
             T(s) == RAdd(RMul(RMul(E(6), MaxAbs(s)), g), RMul(Solver, RSqrt(RMul(g, Sq(Line(d.texp, s), d.texp, s)))))
             ts == RMul(Giga, RDiv(T(d.s2_ydark), top)) tm == RMul(Giga, RDiv(T(d.u_ydark), top))
             vs == VarSlope(d)
         IN Sel(ev.res.sigma_y_dark.o = "ok" /\ RClose(RMul(sy, sy), SigmaYDark2(d), E(12), T(d.s2_ydark)), "sigma_y_dark")
            \cup Near(ev, "u_I_mean_DN", MeanCurrentDN(d), 0, tm)
            \cup (IF ~HasK(ev) THEN {} ELSE Sel(ev.res.u_I_var_DN.o = "ok" /\
                     \/ /\ RLe(RNeg(ts), vs)
                        /\ RClose(RMul(vdn, k), vs, E(9), ts)
                     \/ /\ RLe(vs, ts)
                        /\ RIsNan(vdn), "u_I_var_DN"))

BadLin(ev) ==
  LET d == ev.d sat == SatIndex(d, ev.forced) y == Signal(d) x == d.u_p IN
  IF \/ Amb(d, sat, 5) \/ AtLeast(d, sat, 5) = {} \/ Amb(d, sat, 95) \/ AtMost(d, sat, 95) = {} THEN {} ELSE
  LET i == LinMin(d, sat) j == LinMax(d, sat) IN
  IF i > j THEN {} ELSE
  LET xp == Part(x, i, j) yp == Part(y, i, j) IN
  IF Distinct(xp) < 2 \/ ~(\A k \in DOMAIN yp : RLt(0, yp[k])) THEN {} ELSE
  IF ev.lin.o # "ok" THEN {"linearity"} ELSE
  LET f == RelLine(xp, yp)
      g == [a |-> ev.lin.a, b |-> ev.lin.b]
      \* determinant relative to its terms: how much rounding is amplified
      cond == RDiv(RMul(RSumSq(RVDiv(xp, yp)), RSumSq([k \in DOMAIN yp |-> RDiv(1, yp[k])])), f.det)
      tol == RMul(E(13), RMul(cond, Len(xp)))
      dev == ev.lin.dev
      Size(k) == RAdd(RAbs(RMul(g.a, x[k])), RAbs(g.b))
      part == Part(dev, i, j)
  IN Sel(\A k \in DOMAIN xp : RClose(Eval(g, xp[k]), Eval(f, xp[k]), RAdd(E(9), tol), RMul(tol, MaxAbs(yp))), "line")
     \cup (IF Len(dev) # Len(x) THEN {"relative_deviation"}
           ELSE Sel(\A k \in DOMAIN x :
               \/ RLe(RAbs(Eval(g, x[k])), RMul(E(6), Size(k)))
               \/ RClose(dev[k], Deviation(g, <<x[k]>>, <<y[k]>>)[1], E(9),
                         RMul(RMul(E(13), RDiv(Size(k), RAbs(Eval(g, x[k])))), RAdd(100, RAbs(dev[k])))), "relative_deviation")
             \cup Sel(RSame(ev.lin.min, RMinS(part)), "linearity_error_min") \cup Sel(RSame(ev.lin.max, RMaxS(part)), "linearity_error_max")
             \cup Near(ev, "LE_min", RMinS(part), 0, 0) \cup Near(ev, "LE_max", RMaxS(part), 0, 0))

(* a square root of a variance known to within tol; negative gives nan      *)
Root(ev, n, factor, var, tol) ==
  Sel(ev.res[n].o = "ok" /\ \/ /\ RLe(RNeg(tol), var)
                               /\ LET q == RMul(V(ev, n), factor) IN RLe(RNeg(tol), q) /\ RClose(RMul(q, q), var, E(9), tol)
                            \/ /\ (RLt(var, tol) \/ (RLt(0, tol) /\ RLe(var, tol)))
                               /\ RIsNan(V(ev, n)), n)
BadSpat(ev) ==
  LET k == V(ev, "K") b == ev.sp.bright d == ev.sp.dark
      Size(s) == RMul(RAdd(RAdd(RAbs(s.mes), RAbs(s.stack)), RAdd(RAbs(s.cav), RAbs(s.rav))), RAdd(1, RDiv(RMul(s.M, s.N), Den(s))))
      One(s, f) ==
        LET tol == RAdd(RMul(E(11), Size(s)), RMul(ev.tol, 4)) IN
        Near(ev, "s_2_y_measured" \o f, s.mes, E(12), ev.tol) \cup Near(ev, "sigma_2_y_stack" \o f, s.stack, E(12), ev.tol)
        \cup Near(ev, "s_2_y_cav" \o f, s.cav, E(12), ev.tol) \cup Near(ev, "s_2_y_rav" \o f, s.rav, E(12), ev.tol)
        \cup Near(ev, "s_2_y" \o f, Corrected(s), 0, tol)
        \cup Near(ev, "s_2_y_col" \o f, ColPart(s), 0, tol) \cup Near(ev, "s_2_y_row" \o f, RowPart(s), 0, tol)
        \cup Near(ev, "s_2_y_pixel" \o f, PixPart(s), 0, tol)
        \cup Sel(RClose(RSum(<<V(ev, "s_2_y_col" \o f), V(ev, "s_2_y_row" \o f), V(ev, "s_2_y_pixel" \o f)>>), V(ev, "s_2_y" \o f), 0, tol), "split" \o f)
      td == RAdd(RMul(E(10), Size(d)), RMul(ev.tol, 4)) tb == RAdd(RMul(E(10), RAdd(Size(b), Size(d))), RMul(ev.tol, 8))
      mean == RDiv(RSub(b.mean, d.mean), 100)
      D(n) == RSub(V(ev, "s_2_y" \o n), V(ev, "s_2_y" \o n \o "_dark"))
  IN One(b, "") \cup One(d, "_dark")
     \cup UNION {IF ~HasK(ev) THEN {} ELSE Root(ev, "DSNU1288" \o n, k, V(ev, "s_2_y" \o n \o "_dark"), td) : n \in {"", "_row", "_col", "_pixel"}}
     \cup Root(ev, "DSNU1288_DN", 1, V(ev, "s_2_y_dark"), td)
     \cup UNION {Root(ev, "PRNU1288" \o n, mean, D(n), tb) : n \in {"", "_row", "_col", "_pixel"}}
=============================================================================
