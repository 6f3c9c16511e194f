----------------------------- MODULE MC_Report ------------------------------
(* All short histories of reports over shared folders and shared caller     *)
(* dictionaries.  tex: what the last generation in a folder wrote (the      *)
(* points), files: the combination each plot folder shows.                  *)
EXTENDS Report, Json, TLC
CONSTANTS Folders, Combos, MaxReports, MaxLen
VARIABLES reps, ops, tex, files, h
vars == <<reps, ops, tex, files, h>>
Op0 == <<[name |-> "a", summary |-> FALSE, cs |-> <<>>, tp |-> <<>>],
         [name |-> NONE, summary |-> TRUE, cs |-> <<>>, tp |-> <<>>]>>
Init == reps = <<>> /\ ops = Op0 /\ tex = [f \in Folders |-> NONE] /\ files = [f \in Folders |-> <<>>] /\ h = <<>>
Log(x) == h' = Append(h, x)
New == /\ Len(reps) < MaxReports
       /\ \E f \in Folders : reps' = Append(reps, NewReport(f, "i")) /\ Log([op |-> "new", folder |-> f])
       /\ UNCHANGED <<ops, tex, files>>
Put(s, k, x) == [j \in 1..(IF k > Len(s) THEN k ELSE Len(s)) |-> IF j = k THEN x ELSE IF j \in DOMAIN s THEN s[j] ELSE NONE]
Add == \E r \in DOMAIN reps, p \in DOMAIN ops, x \in Combos :
         /\ reps' = [reps EXCEPT ![r] = AddPoint(@, ops[p], x)]
         /\ files' = [files EXCEPT ![reps[r].folder] = Put(@, Len(reps[r].pts) + 1, x)]
         /\ Log([op |-> "add", r |-> r, p |-> p, x |-> x]) /\ UNCHANGED <<ops, tex>>
Edit == \E p \in DOMAIN ops : /\ ops' = [ops EXCEPT ![p].cs = Append(@, <<"Gain", ToString(Len(h))>>), ![p].summary = ~@]
                              /\ Log([op |-> "edit", p |-> p]) /\ UNCHANGED <<reps, tex, files>>
Latex == \E r \in DOMAIN reps : /\ tex' = [tex EXCEPT ![reps[r].folder] = ToJson(reps[r].pts)]
                                /\ Log([op |-> "latex", r |-> r]) /\ UNCHANGED <<reps, ops, files>>
Next == Len(h) < MaxLen /\ (New \/ Add \/ Edit \/ Latex)
Spec == Init /\ [][Next]_vars

(* independently, from the history                                          *)
Adds(r) == SelectSeq([k \in DOMAIN h |-> [e |-> h[k], k |-> k]], LAMBDA y : y.e.op = "add" /\ y.e.r = r)
Edits(p, k) == Cardinality({j \in 1..k : h[j].op = "edit" /\ h[j].p = p})
OrderOk == \A r \in DOMAIN reps : /\ Len(reps[r].pts) = Len(Adds(r))
  /\ \A n \in DOMAIN reps[r].pts : LET a == Adds(r)[n] pt == reps[r].pts[n] IN
       /\ pt.x = a.e.x /\ pt.id = Id(n) /\ pt.name = (IF Op0[a.e.p].name = NONE THEN Id(n) ELSE Op0[a.e.p].name)
       /\ Len(pt.cs) = Edits(a.e.p, a.k) /\ pt.summary = ((Edits(a.e.p, a.k) % 2 = 1) # Op0[a.e.p].summary)
IdsOk == \A r \in DOMAIN reps : \A m, n \in DOMAIN reps[r].pts : m # n => reps[r].pts[m].id # reps[r].pts[n].id
FilesOk == \A r \in DOMAIN reps : Len(files[reps[r].folder]) >= Len(reps[r].pts)
TexOk == h # <<>> /\ h[Len(h)].op = "latex" =>
           LET r == h[Len(h)].r IN tex[reps[r].folder] = ToJson(reps[r].pts)
                                   /\ (Cardinality({q \in DOMAIN reps : reps[q].folder = reps[r].folder}) = 1
                                       => \A n \in DOMAIN reps[r].pts : files[reps[r].folder][n] = reps[r].pts[n].x)
RowsOk == /\ \A a, b \in DOMAIN Rows : Rows[a].f = Rows[b].f => a = b
          /\ Cardinality(Plots) = 16 /\ Short \subseteq Plots
ASSUME RowsOk
ASSUME LET c(t, n, d) == [txt |-> t, num |-> n, dec |-> d] IN
  /\ CellOk(Rows[1], "1/3", c("0.33", "33/100", 2)) /\ ~CellOk(Rows[1], "1/3", c("0.34", "34/100", 2))
  /\ ~CellOk(Rows[1], "1/3", c("0.333", "333/1000", 3)) /\ CellOk(Rows[11], "none", c("-", "none", 0))
  /\ ~CellOk(Rows[11], "nan", c("nan", "nan", 0)) /\ CellOk(Rows[1], "nan", c("nan", "nan", 0))
Emit == IF Len(h) = MaxLen /\ (\E k \in DOMAIN h : h[k].op = "add") /\ h[MaxLen].op = "latex"
        THEN PrintT("SCN " \o ToJson([h |-> h])) ELSE TRUE
Inv == OrderOk /\ IdsOk /\ FilesOk /\ TexOk /\ Emit
=============================================================================
