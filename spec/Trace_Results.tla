---------------------------- MODULE Trace_Results ----------------------------
(* Recorded results: d the temporal data, sp the spatial data, forced and   *)
(* area the arguments (<<>> when not given), res[name] the outcome o and    *)
(* value v of reading a result, lin the linearity dictionary.  part: the    *)
(* figures looked at.                                                       *)
EXTENDS Figures, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>

Bad(ev) == CASE ev.part = "idx" -> BadIdx(ev)
             [] ev.part = "sens" -> BadSens(ev)
             [] ev.part = "dark" -> BadDark(ev)
             [] ev.part = "lin" -> BadLin(ev)
             [] ev.part = "spat" -> BadSpat(ev)

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l] @@ [tol |-> 0]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
