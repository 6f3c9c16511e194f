---------------------------- MODULE Trace_Camera ----------------------------
(* Recorded images of simulated cameras.  Each grab event has the settings  *)
(* of the camera before it (s), the overrides in effect (temp and f), the   *)
(* radiance and one or more images grabbed with them.                       *)
EXTENDS Camera, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Sel(c, name) == IF c THEN {} ELSE {name}
Near(a, b) == RClose(a, b, RPow(10, -9), RPow(10, -12))

Lam(c, ref, ev) == RVShift(PhotoE(c, ref, ev.rad, ev.s.exp, ev.f), Thermal(c, ev.temp, ev.s.exp))
(* reach of the noise: beyond it with a probability under 10^-12            *)
Reach(lam, s2) == IF RLe(RAdd(lam, s2), 0) THEN 0
                  ELSE RAdd(RMul(8, RSqrt(RAdd(lam, s2))), IF RLe(lam, 0) THEN 0 ELSE 8)

Unclipped(c, s, e, r) ==
  /\ RLe(0, RSub(e, r)) /\ RLe(RAdd(e, r), c.uesat)
  /\ RLe(1, Analog(c, s, RSub(e, r))) /\ RLe(RAdd(Analog(c, s, RAdd(e, r)), 1), Top(c))

(* electrons are whole where nothing but photons and heat make them         *)
Lattice(c, s, e0, x) ==
  LET k0 == RFloor(RDiv(RSub(RSub(x, s.bo), RMul(s.K, e0)), s.K)) IN
  \E d \in -1..2 : LET v == RAdd(RAdd(RMul(s.K, RAdd(k0, d)), RMul(s.K, e0)), s.bo) IN
                   RLe(LowDN(c, v), x) /\ RLe(x, HighDN(c, v))

Lagged(r, d) == LET n == Len(r) - d IN <<SubSeq(r, 1, n), SubSeq(r, d + 1, Len(r))>>
Uncorrelated(a, b, var) ==
  LET n == Len(a) IN RLe(RAbs(RDiv(RDot(a, b), n)), RDiv(RMul(6, var), RSqrt(n)))

(* statistics of the deviations of images without clipping                  *)
BadStats(c, s, ev, e, lam) ==
  LET n == Len(e)
      k2 == RMul(s.K, s.K)
      exp == RVShift(RVScale(e, s.K), s.bo)
      var == RMul(k2, RAdd(RDiv(RSum(lam), n), c.s2))
      varq == RAdd(var, RDiv(1, 4))
      dev == [i \in DOMAIN ev.imgs |-> RVSub(ev.imgs[i], exp)]
      m == Len(dev)
      one(i) == LET d == dev[i] IN
        Sel(RLe(RAbs(RDiv(RSum(d), n)), RAdd(RDiv(RMul(6, RSqrt(varq)), RSqrt(n)), RDiv(1, 100))), "mean")
        \cup (IF RLt(var, 1) THEN {}
              ELSE LET v == RDiv(RSumSq(d), n)
                       tol == RMul(6, RMul(varq, RSqrt(RDiv(3, n)))) IN
                   Sel(RLe(RSub(var, tol), v) /\ RLe(v, RAdd(varq, tol)), "variance"))
        \cup (IF RLt(var, 1) THEN {}
              ELSE Sel(LET p == Lagged(d, 1) IN Uncorrelated(p[1], p[2], varq), "correlated-row")
                   \cup Sel(LET p == Lagged(d, ev.width) IN Uncorrelated(p[1], p[2], varq), "correlated-column"))
        \cup (IF RLt(var, 10) \/ ~RLe(RMul(100, RSum(lam)), RMul(n, c.s2)) THEN {}
              ELSE LET q == RDiv(RSumSq(RVMul(d, d)), n)       \* Gaussian: fourth moment 3 var^2
                       w == RMul(3, RMul(var, var)) IN
                   Sel(RLe(RAbs(RSub(q, w)), RMul(w, RAdd(RDiv(1, 20), RSqrt(RDiv(400, n))))), "not-gaussian"))
  IN UNION {one(i) : i \in DOMAIN dev}
     \cup (IF m < 2 \/ RLt(var, 1) THEN {} ELSE Sel(Uncorrelated(dev[1], dev[2], varq), "correlated-images"))

BadGrab(T, ev) ==
  LET c == T.c s == ev.s
      lam == Lam(c, T.ref, ev)
      e0 == RVShift(s.dsnu, c.ds0)
      e == RVAdd(lam, e0)
      n == Len(e)
      reach == [k \in 1..n |-> Reach(lam[k], c.s2)]
  IN IF ev.out # "ok" THEN {"raises-" \o ev.out}
     ELSE Sel(\A i \in DOMAIN ev.imgs : Len(ev.imgs[i]) = n /\ ev.shapes[i] = <<c.height, c.width>>, "shape")
       \cup Sel(\A i \in DOMAIN ev.imgs : BitsOf(ev.types[i]) >= c.bits, "type")
       \cup Sel(\A i \in DOMAIN ev.imgs : \A k \in DOMAIN ev.imgs[i] :
                  InRange(c, s, e[k], reach[k], reach[k], ev.imgs[i][k]), "level")
       \cup (IF REq(c.s2, 0) /\ RLe(3, s.K)
             THEN Sel(\A i \in DOMAIN ev.imgs : \A k \in DOMAIN ev.imgs[i] :
                        \/ ~Unclipped(c, s, e[k], reach[k])
                        \/ Lattice(c, s, e0[k], ev.imgs[i][k]), "not-whole-electrons")
             ELSE {})
       \cup (IF n >= 1000 /\ \A k \in 1..n : Unclipped(c, s, e[k], reach[k])
             THEN BadStats(c, s, [imgs |-> ev.imgs, width |-> c.width], e, lam) ELSE {})

(* bad pixels: n other pixels have the DSNU asked for, the rest theirs      *)
BadBad(T, ev) ==
  LET v == RMul(ev.value, T.c.uesat)
      new == {k \in DOMAIN ev.dsnu0 : ~RSame(ev.dsnu0[k], ev.dsnu1[k])}
      set == {k \in DOMAIN ev.dsnu0 : Near(ev.dsnu1[k], v)} IN
  Sel(ev.out = "ok", "raises-" \o ev.out)
  \cup Sel(new \subseteq set, "wrong-value") \cup Sel(Cardinality(set) = ev.n, "number-of-bad-pixels")

Bad(T, ev) == CASE ev.op = "grab" -> BadGrab(T, ev) [] ev.op = "bad" -> BadBad(T, ev)

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET T == Traces[t] ev == T.ev[l]
               b == Bad(T, ev) \cup Sel(RClose(T.ref, NominalRef, RDiv(3, 1000), 0), "constants") IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> T.id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
