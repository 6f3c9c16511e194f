----------------------------- MODULE Trace_Chain -----------------------------
(* Recorded histories of the facade.                                        *)
(*  img, del, txt: image and descriptor files written and removed           *)
(*  new: facade k made of a descriptor; steps: the outcome of doing it step *)
(*    by step over other copies of the files                                *)
(*  read: what facade k shows (what: xml, file, print, plot), its digest,   *)
(*    the one of the step by step evaluation (want), and for xml and file   *)
(*    the figures                                                           *)
(*  recover: the figures of a dataset of the simulated camera               *)
EXTENDS Figures, Json, IOUtils
C == INSTANCE Chain
D == INSTANCE Descriptor
G == INSTANCE Recover
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>

BadNew(s, ev) ==
  LET v == C!Make(s, ev.k, C!Segs(ev.path)).made[ev.k] IN
  Sel(ev.out = ev.steps, "not-as-steps")
  \cup IF v.loose THEN {}
       ELSE IF v.bad = {} THEN Sel(ev.out = "ok", "rejected")
       ELSE IF ev.out = "ok" THEN {"accepted"} ELSE Sel(ev.out \in v.bad, "wrong-error")

(* the figures, where they are not a matter of rounding *)
BadLE(v, ev) ==
  LET d == v.d sat == Saturation(d.s2_y) y == Signal(d) x == d.u_p IN
  IF \/ Amb(d, sat, 5) \/ AtLeast(d, sat, 5) = {} \/ Amb(d, sat, 95) \/ AtMost(d, sat, 95) = {} THEN {} ELSE
  LET i == LinMin(d, sat) j == LinMax(d, sat) IN
  IF i > j THEN {} ELSE
  LET xp == Part(x, i, j) yp == Part(y, i, j) IN
  IF Distinct(xp) < 2 \/ ~(\A k \in DOMAIN yp : RLt(0, yp[k])) THEN {} ELSE
  LET f == RelLine(xp, yp)
      cond == RDiv(RMul(RSumSq(RVDiv(xp, yp)), RSumSq([k \in DOMAIN yp |-> RDiv(1, yp[k])])), f.det)
      dev == Deviation(f, xp, yp)
  IN IF RLe(E(6), RMul(E(12), cond)) \/ \E k \in DOMAIN xp : RLe(RAbs(Eval(f, xp[k])), E(3)) THEN {}
     ELSE Near(ev, "LE_min", RMinS(dev), E(5), E(4)) \cup Near(ev, "LE_max", RMaxS(dev), E(5), E(4))
BadFigures(v, ev0) ==
  LET ev == ev0 @@ [d |-> v.d, sp |-> v.sp, tol |-> v.tol, forced |-> <<>>, area |-> <<>>] IN
  IF C!NearTie(v) \/ Min0({Len(v.d.u_p), 3}) < 3 THEN {}
  ELSE BadIdx(ev) \cup BadSens(ev) \cup BadDark(ev) \cup BadSpat(ev) \cup BadLE(v, ev)

Figured(ev) == ev.what \in {"xml", "file"} /\ ev.out = "ok"
BadRead(s, ev) ==
  Sel(ev.out = ev.wout /\ ev.dig = ev.want, "not-as-steps-" \o ev.what)
  \cup (LET v == s.made[ev.k] IN
        IF v.bad # {} \/ v.loose \/ ~Figured(ev) THEN {} ELSE BadFigures(v, ev))

BadRecover(ev) ==
  LET g == ev.g p == D!ParseText(ev.text)
      pts == [k \in DOMAIN p.pts |-> p.pts[k]]
      b == G!Bright(pts) m == RToInt(V(ev, "index_sensitivity_max")) x(n) == V(ev, n)
      tm == G!Times(g, pts)
      z == G!Lit(pts)
      lit == z.exp
      qd == G!Pattern(g.dsnu) qb == G!Pattern(G!LitPattern(g, z.ph))
  IN IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE IF p.bad # {} \/ p.loose THEN {"unparsable"}
  ELSE IF ~G!Admissible(g) THEN {}
  ELSE IF ev.res.index_sensitivity_max.o # "ok" THEN {"no-range"}
  ELSE IF ~G!RangeOk(g, b, m) THEN {"range"}
  ELSE Sel(G!GainOk(g, b, m, x("K")), "K") \cup Sel(G!ResponsivityOk(g, b, m, x("R")), "R") \cup Sel(G!QeOk(g, b, m, x("QE")), "QE")
  \cup Sel(G!NoiseDNOk(g, tm, x("sigma_y_dark")), "sigma_y_dark") \cup Sel(G!NoiseOk(g, b, m, tm, x("sigma_d")), "sigma_d")
  \cup Sel(G!CurrentMeanOk(g, b, m, tm, x("u_I_mean")), "u_I_mean") \cup Sel(G!CurrentVarOk(g, b, m, tm, x("u_I_var")), "u_I_var")
  \cup Sel(G!CurrentMeanDNOk(g, tm, x("u_I_mean_DN")), "u_I_mean_DN")
  \cup UNION {Sel(G!PatternOk(g, qd, q[1], lit, 0, x(q[2] \o "_dark")), q[2] \o "_dark") \cup Sel(G!PatternOk(g, qb, q[1], lit, z.ph, x(q[2])), q[2])
              : q \in {<<"all", "s_2_y">>, <<"col", "s_2_y_col">>, <<"row", "s_2_y_row">>, <<"pixel", "s_2_y_pixel">>}}
  \cup Sel(G!DsnuOk(g, b, m, qd, lit, x("DSNU1288")), "DSNU1288") \cup Sel(G!PrnuOk(g, qb, qd, lit, z.ph, x("PRNU1288")), "PRNU1288")

Bad(s, ev) == CASE ev.e = "new" -> BadNew(s, ev)
                [] ev.e = "read" -> BadRead(s, ev)
                [] ev.e = "recover" -> BadRecover(ev)
                [] OTHER -> {}
After(s, ev) == CASE ev.e = "img" -> C!Image(s, C!Segs(ev.path), ev.img)
                  [] ev.e = "del" -> C!Lose(s, C!Segs(ev.path))
                  [] ev.e = "txt" -> C!Describe(s, C!Segs(ev.path), ev.text)
                  [] ev.e = "new" -> C!Make(s, ev.k, C!Segs(ev.path))
                  [] OTHER -> s

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = C!CInit
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l] b == Bad(st, ev) IN
           /\ IF b = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
           /\ st' = After(st, ev)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
