-------------------------- MODULE Trace_ResultsObj --------------------------
(* Recorded histories of Results1288 objects.  ref[x] are the values of     *)
(* combination x of data and arguments, each from an object of its own that *)
(* was asked nothing else; "new" creates object number Len(objs)+1 of       *)
(* combination x; h is the state of the data after the operation.           *)
EXTENDS ResultsObj, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, objs
vars == <<t, l, objs>>

Sel(c, name) == IF c THEN {} ELSE {name}
Known(x, f) == f \in DOMAIN x
BadRow(ref, row) ==
  IF row.name \in Figures /\ row.section # Section[row.name] THEN {"section"}
  ELSE IF Known(ref, row.name) THEN Sel(SameVal(row.val, ref[row.name]), "catalogue-value") ELSE {}
Raises(ref) == \E f \in Figures : ref[f].o \notin {"ok", "none"}
BadCat(ref, ev) ==
  IF Raises(ref) THEN {}
  ELSE IF ev.out # "ok" THEN {"catalogue-rejected"}
  ELSE Sel(\A f \in Figures : Has(ev.rows, f), "missing")
       \cup Sel(Cardinality({ev.rows[k].name : k \in DOMAIN ev.rows}) = Len(ev.rows), "listed-twice")
       \cup UNION {BadRow(ref, ev.rows[k]) : k \in DOMAIN ev.rows}
Bad(ev, T) ==
  Sel(ev.h = T.h0, "data-modified")
  \cup CASE ev.op = "read" -> Sel(SameVal(ev.val, T.ref[objs[ev.o]][ev.f]), "value")
         [] ev.op = "cat" -> BadCat(T.ref[objs[ev.o]], ev)
         [] OTHER -> {}

Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = <<>>
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l] b == Bad(ev, Traces[t]) IN
           /\ objs' = IF ev.op = "new" THEN Append(objs, ev.x) ELSE objs
           /\ IF b = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
