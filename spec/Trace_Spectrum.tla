--------------------------- MODULE Trace_Spectrum ---------------------------
(* Recorded calls of FFT1288 (img, mask, rotate, n; spec: the result) and   *)
(* of GetFrecs on the result (freq).                                        *)
EXTENDS Spectrum, FiniteSets, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

E(k) == RPow(10, -k)
Sel(c, name) == IF c THEN {} ELSE {name}
(* the transform is done in doubles: its error is relative to the largest   *)
(* amplitude of the line, not to the value at one frequency                 *)
Amp(lines, n) == RDiv(RMul(E(14), RMul(RSqrt(Len(lines[1])), RMax(1, RMaxS(RVAbs(RFlat(lines)))))), n)
PowerTol(p, a) == RAdd(RMul(p, E(11)), RMul(a, RAdd(a, RMul(4, RSqrt(p)))))
NearP(x, p, a) == RClose(x, p, 0, PowerTol(RMax(p, 0), a))

BadSpec(ev) ==
  LET i == IF ev.rotate THEN Turned(ev.img) ELSE ev.img
      m == IF ev.rotate THEN TurnedMask(ev.mask) ELSE ev.mask
      lines == Lines(i, m) IN
  IF lines = <<>> THEN {}
  ELSE IF ev.out # "ok" THEN {"rejected"}
  ELSE LET N == Len(lines[1]) p == Power(lines, ev.n) a == Amp(lines, ev.n) IN
       IF Len(ev.spec) # NFreq(N) THEN {"length"}
       ELSE Sel(\A k \in DOMAIN p : NearP(ev.spec[k], p[k], a), "power")
            \cup Sel(ev.h0 = ev.h1, "input-modified")
            \cup (IF Len(ev.freq) # NFreq(N) THEN {"freq-length"}
                  ELSE IF \A k \in DOMAIN ev.freq : RClose(ev.freq[k], Freq(k - 1, N), E(12), 0) THEN {}
                  ELSE IF \A k \in DOMAIN ev.freq : RClose(ev.freq[k], Freq(k - 1, 2 * NFreq(N)), E(12), 0) THEN {"freq-axis-2len"}
                  ELSE {"freq-axis"})

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == BadSpec(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
