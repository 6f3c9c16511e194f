--------------------------- MODULE Trace_CamState ---------------------------
(* Recorded histories of several cameras.  all[k] are the settings of       *)
(* camera k after the event (const: everything that is no setting); "new"   *)
(* makes camera number Len(cams)+1.  seen: the images so far with the       *)
(* histories that gave them.                                                *)
EXTENDS CamState, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, cams, seen, consts
vars == <<t, l, cams, seen, consts>>

Sel(c, name) == IF c THEN {} ELSE {name}
(* an image with visible noise: two draws are never equal                   *)
Noisy(cam, ev) ==
  LET g == cam.g s == cam.s IN
  /\ ev.dark /\ g.pixels >= 60
  /\ LET th == Thermal(g, ev.temp, s.exp)
         sd == RMul(s.K, RSqrt(RAdd(g.s2, th)))
         mid == RAdd(RMul(s.K, RAdd(g.ds0, th)), s.bo)
     IN RLe(1, sd) /\ RLe(RMul(3, sd), RSub(mid, s.bo)) /\ RLe(RAdd(mid, RMul(3, sd)), Top(g))
Others(cs, ev, but) ==
  UNION {Sel(k = but \/ Same(cs[k].s, ev.all[k]), "setting-changed") : k \in DOMAIN cs}
  \cup UNION {Sel(consts[k] = ev.const[k], "constant-changed") : k \in DOMAIN cs}
BadGrab(cam, ev) ==
  IF ev.out # "ok" THEN {"raises-" \o ev.out}
  ELSE LET key == ImageKey(cam, ev.what) IN
       (IF ev.seeded THEN Sel(\A x \in seen : x.key = key => x.dig = ev.dig, "not-reproducible") ELSE {})
       \cup (IF Noisy(cam, ev) THEN Sel(\A x \in seen : (x.cam = ev.cam \/ x.seed # ev.seed) => x.dig # ev.dig, "same-draw") ELSE {})
Bad(ev) ==
  CASE ev.e = "new" ->
         LET s == ev.all[Len(cams) + 1] g == ev.g IN
         Sel(Snaps(g, "K", ev.s.K, s.K), "K") \cup Sel(Snaps(g, "bo", ev.s.bo, s.bo), "bo")
         \cup Sel(REq(ev.s.exp, s.exp) /\ REq(ev.s.temp, s.temp) /\ REq(ev.s.f, s.f) /\ ev.s.dsnu = s.dsnu, "initial")
         \cup Sel(RCloseSeq(ev.ks, Grid(g.kmin, g.kmax, g.ksteps), RPow(10, -12), GridTol(g.kmin, g.kmax)), "K-grid")
         \cup Sel(RCloseSeq(ev.bs, Grid(g.bmin, g.bmax, g.bsteps), RPow(10, -12), GridTol(g.bmin, g.bmax)), "bo-grid")
         \cup Others(cams, ev, 0)
    [] ev.e = "set" ->
         LET cam == cams[ev.cam] s == ev.all[ev.cam] IN
         Sel(ev.out = "ok", "raises-" \o ev.out)
         \cup Sel(Snaps(cam.g, ev.field, ev.v, s[ev.field]), ev.field)
         \cup Sel(Same([cam.s EXCEPT ![ev.field] = s[ev.field]], s), "other-setting-changed")
         \cup Others(cams, ev, ev.cam)
    [] ev.e = "grab" -> BadGrab(cams[ev.cam], ev) \cup Others(cams, ev, 0)
    [] OTHER -> Others(cams, ev, 0)
After(ev) ==
  CASE ev.e = "new" -> Append(cams, New(ev.g, ev.all[Len(cams) + 1]))
    [] ev.e = "set" -> [cams EXCEPT ![ev.cam] = Did(@, ev.what, ev.all[ev.cam])]
    [] ev.e = "grab" -> [cams EXCEPT ![ev.cam] = Did(@, ev.what, @.s)]
    [] OTHER -> cams

Init == t \in 1..Len(Traces) /\ l = 1 /\ cams = <<>> /\ seen = {} /\ consts = <<>>
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l] b == Bad(ev) IN
           /\ IF b = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
           /\ cams' = After(ev)
           /\ consts' = IF ev.e = "new" THEN Append(consts, ev.const[Len(cams) + 1]) ELSE consts
           /\ seen' = IF ev.e = "grab" /\ ev.out = "ok"
                      THEN seen \cup {[key |-> ImageKey(cams[ev.cam], ev.what), cam |-> ev.cam, seed |-> ev.seed, dig |-> ev.dig]} ELSE seen
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
