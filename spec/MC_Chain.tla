------------------------------ MODULE MC_Chain ------------------------------
(* Short histories of files and facades over two folders, each with a       *)
(* descriptor and its images, in a few versions.  The evaluation of a       *)
(* folder is abstracted to its versions; version 0 of a descriptor cannot   *)
(* be read and version 0 of the images lacks one.                           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Dirs, Versions, MaxMade, MaxLen
VARIABLES txt, img, made, shown, h
vars == <<txt, img, made, shown, h>>
Whats == {"xml", "file", "print", "plot"}
Value(d) == IF txt[d] = 0 \/ img[d] = 0 THEN <<>> ELSE <<txt[d], img[d]>>
Init == txt = [d \in Dirs |-> 1] /\ img = [d \in Dirs |-> d] /\ made = <<>> /\ shown = <<>> /\ h = <<>>
Log(x) == h' = Append(h, x)
Txt(d, v) == v # txt[d] /\ txt' = [txt EXCEPT ![d] = v] /\ Log([op |-> "txt", d |-> d, v |-> v]) /\ UNCHANGED <<img, made, shown>>
Img(d, v) == v # img[d] /\ img' = [img EXCEPT ![d] = v] /\ Log([op |-> "img", d |-> d, v |-> v]) /\ UNCHANGED <<txt, made, shown>>
New(d) == Len(made) < MaxMade /\ made' = Append(made, Value(d)) /\ Log([op |-> "new", d |-> d]) /\ UNCHANGED <<txt, img, shown>>
Read(k, w) == made[k] # <<>> /\ shown' = Append(shown, [k |-> k, v |-> made[k]]) /\ Log([op |-> "read", k |-> k, what |-> w])
              /\ UNCHANGED <<txt, img, made>>
Next == Len(h) < MaxLen /\ \/ \E d \in Dirs, v \in Versions : Txt(d, v) \/ Img(d, v)
                           \/ \E d \in Dirs : New(d)
                           \/ \E k \in DOMAIN made, w \in Whats : Read(k, w)
Spec == Init /\ [][Next]_vars
(* whatever was shown of a facade is one value, and two facades made of a   *)
(* folder without a change of it in between show the same                   *)
Bound == \A i \in DOMAIN shown : shown[i].v = made[shown[i].k]
News == SelectSeq([i \in DOMAIN h |-> [i |-> i, op |-> h[i]]], LAMBDA x : x.op.op = "new")
Stable == \A a, b \in DOMAIN News :
  (a < b /\ News[a].op.d = News[b].op.d
   /\ ~\E i \in (News[a].i)..(News[b].i) : h[i].op \in {"txt", "img"} /\ h[i].d = News[a].op.d) => made[a] = made[b]
Useful == Len(h) = MaxLen /\ h[MaxLen].op = "read"
Emit == IF Useful THEN PrintT("SCN " \o ToJson([h |-> h])) ELSE TRUE
Inv == Bound /\ Stable /\ Emit
=============================================================================
