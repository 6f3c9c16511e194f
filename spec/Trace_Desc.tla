----------------------------- MODULE Trace_Desc -----------------------------
(* Recorded runs of ParseEmvaDescriptorFile.  An event is one parse:        *)
(*   text  the bytes of the file        base  the folder of its images      *)
(*   out   "ok" or the exception        ver, fmt, imgs  what was read       *)
EXTENDS Descriptor, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Got(ev) == { <<ev.imgs[k].kind, RNum(ev.imgs[k].exp), RNum(ev.imgs[k].ph),
               [j \in DOMAIN ev.imgs[k].files |-> Segments(ev.imgs[k].files[j])]>>
             : k \in DOMAIN ev.imgs }

Read(ev, p) ==
  (IF ev.ver = p.ver THEN {} ELSE {"version"})
  \cup (IF Len(ev.fmt) = Len(p.fmt) /\ \A k \in DOMAIN p.fmt : REq(ev.fmt[k], p.fmt[k])
        THEN {} ELSE {"format"})
  \cup (IF Got(ev) = Entries(p, ev.base) THEN {} ELSE {"images"})
  \cup (IF Len(ev.imgs) = Cardinality(Got(ev)) THEN {} ELSE {"twice"})

Bad(ev) ==
  LET p == ParseText(ev.text) IN
  IF ev.e # "parse" THEN {"event"}
  ELSE IF p.bad # {} THEN
       IF ev.out = "ok" THEN {"accepted"} ELSE IF ev.out \in p.bad \/ p.loose THEN {} ELSE {"wrong-error"}
  ELSE IF ev.out # "ok" THEN (IF p.loose THEN {} ELSE {"rejected"})
  ELSE Read(ev, p)

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
