---------------------------- MODULE Trace_Report ----------------------------
(* Recorded histories of reports.  ref[x]: the figures of combination x;    *)
(* "new" makes report Len(reps)+1; ops: the caller's dictionaries where     *)
(* they may have changed; a file shows the combinations whose plot it is;   *)
(* plots[f]: the combination a folder's OPk was last written for; same: no  *)
(* dictionary or array of the caller was changed; can[x]: an object of its  *)
(* own has all figures and plots.                                           *)
EXTENDS Report, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, reps, ops, plots, tex
vars == <<t, l, reps, ops, plots, tex>>

Sel(c, name) == IF c THEN {} ELSE {name}
F(fs, f) == CHOOSE k \in DOMAIN fs : fs[k].f = f
Has(fs, f) == \E k \in DOMAIN fs : fs[k].f = f
Pics(i) == [logo |-> IF i.up.logo = NONE THEN "files/missinglogo.pdf" ELSE "upload/" \o i.up.logo,
            qe |-> IF i.up.qe # NONE THEN "upload/" \o i.up.qe
                   ELSE IF i.up.missingplot # NONE THEN "upload/" \o i.up.missingplot ELSE "files/missingplot.pdf"]
BadPoint(pt, p, ref) ==
  Sel(p.name = pt.name /\ p.sname = pt.name, "name") \cup Sel(p.id = pt.id, "label")
  \cup Sel(p.wave = Lookup(pt.tp, "Wavelength") /\ p.swave = p.wave, "wavelength")
  \cup Sel(p.cs = pt.cs, "camera-settings") \cup Sel(p.tp = pt.tp, "test-parameters")
  \cup (IF Len(p.rows) # Len(Rows) THEN {"rows"}
        ELSE UNION {Sel(RowOk(Rows[k], ref[Rows[k].f], p.rows[k]), "row-" \o Rows[k].f) : k \in DOMAIN Rows})
  \cup Sel({p.pics[k] : k \in DOMAIN p.pics} = Pictures(pt) /\ Len(p.pics) = Cardinality(Pictures(pt)), "pictures")
BadHead(pt, q) == Sel(q.name = pt.name /\ q.id = pt.id, "head") \cup Sel(q.cs = pt.cs /\ q.tp = pt.tp, "head-settings")
BadFiles(rep, fs, T) ==
  LET want == {"emvadatasheet.sty", "report.tex", "files/EMVA1288Logo.pdf", "files/missinglogo.pdf", "files/missingplot.pdf"}
      ups == {rep.info.up.logo, rep.info.up.qe, rep.info.up.missingplot} \ {NONE} IN
  Sel(\A f \in want : Has(fs, f), "files")
  \cup Sel(\A u \in ups : Has(fs, "upload/" \o u) /\ fs[F(fs, "upload/" \o u)].d = T.uploads[u], "upload")
  \cup UNION {LET f == rep.pts[k].id \o "/" \o p \o ".pdf" IN
              IF ~Has(fs, f) THEN {"plot-missing"}
              ELSE Sel(\E j \in DOMAIN fs[F(fs, f)].shows : fs[F(fs, f)].shows[j] = plots[rep.folder][k], "plot-shows-other")
              : k \in DOMAIN rep.pts, p \in Plots}
BadLatex(rep, ev, T) ==
  IF ev.out # "ok" THEN {"raises-" \o ev.out} ELSE
  LET d == ev.doc i == rep.info IN
  IF "unreadable" \in DOMAIN d THEN {"unreadable"} ELSE
  Sel(d.tail, "incomplete") \cup Sel(d.general = General(i.b, i.setup), "general")
  \cup Sel(d.watermark = i.m.watermark, "watermark") \cup Sel(d.cover = i.cover, "cover")
  \cup Sel(d.qe = <<Pics(i).qe>>, "qe-plot")
  \cup (IF Len(d.heads) # Len(rep.pts) THEN {"number-of-heads"} ELSE UNION {BadHead(rep.pts[k], d.heads[k]) : k \in DOMAIN d.heads})
  \cup (IF Len(d.points) # Len(rep.pts) THEN {"number-of-points"}
        ELSE UNION {BadPoint(rep.pts[k], d.points[k], T.ref[rep.pts[k].x]) : k \in DOMAIN d.points})
  \cup Sel(ev.sty.head = (IF i.m.vendor = NONE THEN "" ELSE i.m.vendor \o " ") \o "\\, " \o Shown(i.b.model), "style-head")
  \cup Sel(ev.sty.pics = <<"files/EMVA1288Logo.pdf", Pics(i).logo>>, "logo")
  \cup BadFiles(rep, ev.files, T)
  \cup Sel(\A z \in tex : (z.r = ev.r /\ z.n = Len(rep.pts)) => z.d = ev.tex, "not-the-same-again")
Bad(ev, T) ==
  Sel(ev.same, "caller-changed")
  \cup CASE ev.op = "new" -> Sel(ev.out = "ok", "raises-" \o ev.out)
         [] ev.op = "add" -> Sel(ev.out = "ok" \/ ~T.can[ev.x], "raises-" \o ev.out)
         [] ev.op = "latex" -> BadLatex(reps[ev.r], ev, T)
         [] OTHER -> {}
Put(s, k, x) == [j \in 1..(IF k > Len(s) THEN k ELSE Len(s)) |-> IF j = k THEN x ELSE IF j \in DOMAIN s THEN s[j] ELSE NONE]

Init == t \in 1..Len(Traces) /\ l = 1 /\ reps = <<>> /\ ops = <<>> /\ plots = <<>> /\ tex = {}
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l] b == Bad(ev, Traces[t]) IN
           /\ IF b = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToJson([id |-> Traces[t].id, l |-> l, bad |-> SetToSeq(b)]))
           /\ ops' = IF ev.ops # <<>> THEN ev.ops ELSE ops
           /\ reps' = CASE ev.op = "new" -> Append(reps, NewReport(ev.folder, ev))
                       [] ev.op = "add" /\ ev.out = "ok" -> [reps EXCEPT ![ev.r] = AddPoint(@, ops[ev.p], ev.x)]
                       [] OTHER -> reps
           /\ plots' = CASE ev.op = "new" -> [f \in DOMAIN plots \cup {ev.folder} |-> IF f \in DOMAIN plots THEN plots[f] ELSE <<>>]
                        [] ev.op = "add" -> [plots EXCEPT ![reps[ev.r].folder] = Put(@, Len(reps[ev.r].pts) + 1, ev.x)]
                        [] OTHER -> plots
           /\ tex' = IF ev.op = "latex" /\ ev.out = "ok" THEN tex \cup {[r |-> ev.r, n |-> Len(reps[ev.r].pts), d |-> ev.tex]} ELSE tex
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
