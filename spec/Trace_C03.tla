----------------------------- MODULE Trace_C03 -----------------------------
(* Recorded calls of get_int_imgs: imgs, the stack given; h0, h1 digests of *)
(* it before and after; L, sum, pvar, dmean what was returned.              *)
EXTENDS Reduce, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Bad(ev) ==
  IF ev.out # "ok" THEN {"rejected"} ELSE
  LET r == Stack(ev.imgs) IN
  (IF ev.L = r.L THEN {} ELSE {"L"})
  \cup (IF RFlat(ev.sum) = RFlat(r.sum) /\ Shape(ev.sum) = Shape(r.first) THEN {} ELSE {"sum"})
  \cup (IF RFlat(ev.pvar) = RFlat(PVar(r)) /\ Shape(ev.pvar) = Shape(r.first) THEN {} ELSE {"pvar"})
  \cup (IF RClose(ev.dmean, DMean(r), RPow(10, -11), RMul(RMul(RPow(10, -13), r.L), RAdd(1, ev.top)))
        THEN {} ELSE {"dmean"})
  \cup (IF ev.h0 = ev.h1 THEN {} ELSE {"modified"})

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
