----------------------------- MODULE Trace_C04 -----------------------------
(* Recorded histories of image files and loaders.  write/delete change the  *)
(* file system; load makes loader number k; peek reads the data of loader k *)
(* again later.                                                             *)
EXTENDS Loader, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st       \* st: the file system, and what the loaders must hold
vars == <<t, l, st>>

Same(got, exp) ==
  /\ got.kind = exp.kind /\ REq(got.exp, exp.exp) /\ REq(got.ph, exp.ph)
  /\ (exp.kind = "temporal" \/ got.L = exp.L)
  /\ RFlat(got.sum) = exp.sum /\ RFlat(got.pvar) = exp.pvar
  /\ RClose(got.dmean, exp.dmean, RPow(10, -11), RMul(RPow(10, -12), RAdd(1, exp.top)))

Holds(data, want) ==
  (IF Len(data.pts) = Len(want.pts) THEN {} ELSE {"points"})
  \cup (IF \A k \in DOMAIN want.pts : \E j \in DOMAIN data.pts : Same(data.pts[j], want.pts[k])
        THEN {} ELSE {"data"})
  \cup (IF <<data.height, data.width>> = want.shape THEN {} ELSE {"shape"})

Want(s, ev) == Load(s.fs, ev.pts, ev.path, ev.fload)
Bad(s, ev) ==
  CASE ev.e = "load" ->
         (IF ev.h0 = ev.h1 THEN {} ELSE {"input-modified"}) \cup
         LET err == Errors(s.fs, ev.pts, ev.path) IN
         IF err # {} THEN IF ev.out = "ok" THEN {"accepted"} ELSE IF ev.out \in err THEN {} ELSE {"wrong-error"}
         ELSE IF ev.out # "ok" THEN {"rejected"} ELSE Holds(ev.data, Want(s, ev))
    [] ev.e = "peek" -> IF ev.k \in DOMAIN s.loaded THEN {"changed-later-" \o c : c \in Holds(ev.data, s.loaded[ev.k])} ELSE {}
    [] OTHER -> {}
After(s, ev) ==
  CASE ev.e = "write" -> [s EXCEPT !.fs = Write(@, ev.name, ev.chans)]
    [] ev.e = "delete" -> [s EXCEPT !.fs = Delete(@, ev.name)]
    [] ev.e = "load" /\ ev.out = "ok" /\ Errors(s.fs, ev.pts, ev.path) = {} ->
         [s EXCEPT !.loaded = (ev.k :> Want(s, ev)) @@ @]
    [] OTHER -> s

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [fs |-> NoFiles, loaded |-> <<>>]
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l] b == Bad(st, ev) IN
           /\ IF b = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
           /\ st' = After(st, ev)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
