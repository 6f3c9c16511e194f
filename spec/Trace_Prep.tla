----------------------------- MODULE Trace_Prep -----------------------------
(* Recorded runs of Data1288 on loaded stacks.  tp, sp: the temporal and    *)
(* spatial points, with their images; out; temporal, spatial: the results;  *)
(* part: which of them is looked at; h0, h1: digests of the input.          *)
EXTENDS DataPrep, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

E(k) == RPow(10, -k)
Sel(c, name) == IF c THEN {} ELSE {name}
VTol(p) == RAdd(RMul(E(10), TSize(p.imgs)), RMul(E(15), RMul(RAdd(1, Scale(Stack(p.imgs))), RAdd(1, Scale(Stack(p.imgs))))))
Means(got, ps) == Len(got) = Len(ps) /\ \A k \in DOMAIN ps : RClose(got[k], TMean(ps[k].imgs), E(12), E(12))
Vars(got, ps) == Len(got) = Len(ps) /\ \A k \in DOMAIN ps : RClose(got[k], TVar(ps[k].imgs), 0, VTol(ps[k]))
Exact(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN want : REq(got[k], want[k])

BadTemporal(ev) ==
  LET b == BrightSeries(ev.tp) d == DarkSeries(ev.tp) g == ev.temporal IN
  Sel(Exact(g.texp, [k \in DOMAIN d |-> d[k].exp]), "texp")
  \cup Sel(Exact(g.u_p, [k \in DOMAIN b |-> b[k].ph]), "u_p")
  \cup Sel(Means(g.u_y, b), "u_y") \cup Sel(Vars(g.s2_y, b), "s2_y")
  \cup Sel(Means(g.u_ydark, d), "u_ydark") \cup Sel(Vars(g.s2_ydark, d), "s2_ydark")

BadStack(g, s, n) ==
  LET top2 == RMul(RAdd(1, s.top), RAdd(1, s.top)) IN
  Sel(RFlat(g.sum) = s.sum /\ Shape(g.sum) = <<s.M, s.N>>, "sum" \o n)
  \cup Sel(REq(g.L, s.L), "L" \o n) \cup Sel(REq(g.M, s.M) /\ REq(g.N, s.N), "M-N" \o n)
  \cup Sel(RClose(g.avg_mean, s.avg_mean, E(12), E(12)), "avg_mean" \o n)
  \cup Sel(RClose(g.var_mean, s.var_mean, E(9), RMul(E(14), top2)), "var_mean" \o n)
  \cup Sel(RClose(g.avg_var, s.avg_var, E(9), RMul(E(14), top2)), "avg_var" \o n)
  \cup Sel(RClose(g.cav, s.cav, 0, RAdd(RMul(E(9), RAdd(s.pcav, s.var_mean)), RMul(E(14), top2))), "cav" \o n)
  \cup Sel(RClose(g.rav, s.rav, 0, RAdd(RMul(E(9), RAdd(s.prav, s.var_mean)), RMul(E(14), top2))), "rav" \o n)
BadSpatial(ev) ==
  LET e == ev.sp[1].exp d == Dark(ev.sp, e)[1] b == Bright(ev.sp, e)[1] IN
  BadStack(ev.dark, Spatial(d.imgs), "_dark") \cup BadStack(ev.bright, Spatial(b.imgs), "")
  \cup Sel(REq(ev.spatial.texp, e), "texp") \cup Sel(REq(ev.spatial.u_p, b.ph), "u_p")

Bad(ev) ==
  LET err == TemporalErrors(ev.tp) \cup SpatialErrors(ev.sp) IN
  Sel(ev.h0 = ev.h1, "input-modified") \cup
  (IF err # {} THEN IF ev.out = "ok" THEN {"accepted"} ELSE IF ev.out \in err THEN {} ELSE {"wrong-error"}
   ELSE IF ev.out # "ok" THEN {"rejected"}
   ELSE IF ev.part = "t" THEN BadTemporal(ev) ELSE BadSpatial(ev))

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
