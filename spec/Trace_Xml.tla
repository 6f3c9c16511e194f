----------------------------- MODULE Trace_Xml -----------------------------
(* Recorded round trips ("trip": doc as written, got as read, or none) and  *)
(* comparisons ("cmp": d1 and d2 as in the files, lines [sec, name, ok] of  *)
(* the report).                                                             *)
EXTENDS XmlDoc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Sel(c, name) == IF c THEN {} ELSE {name}
BadTrip(ev) ==
  IF ev.out # "ok" THEN {"rejected"}
  ELSE IF ev.got.none THEN {"not-read"}
  ELSE Sel(SameDoc([k \in DOMAIN ev.doc |-> Read(ev.doc[k])], ev.got.doc), "changed")
BadCmp(ev) ==
  IF ev.out # "ok" THEN {"rejected"}
  ELSE LET r == Report(ev.d1, ev.d2) got == ToSet(ev.lines) IN
       Sel(Len(ev.lines) = Cardinality(got), "reported-twice")
       \cup Sel(\A x \in r : \E y \in got : y.sec = x.sec /\ y.name = x.name, "missing")
       \cup Sel(\A y \in got : \E x \in r : y.sec = x.sec /\ y.name = x.name, "extra")
       \cup Sel(\A x \in r : \A y \in got : (y.sec = x.sec /\ y.name = x.name) => y.ok = x.ok, "verdict")
       \cup Sel(ev.file = "same", "file-differs")
Bad(ev) == CASE ev.e = "trip" -> BadTrip(ev)
             [] ev.e = "cmp" -> BadCmp(ev)
             [] ev.e = "junk" -> Sel(ev.out = "ok" /\ ev.got.none, "junk-accepted")
             [] ev.e = "input" -> Sel(ev.h0 = ev.h1, "input-modified")
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
