----------------------------- MODULE MC_Loader -----------------------------
(* Loads of every subset of six points from a small file system in which    *)
(* one file may be missing or of another shape (so that a series, or all of  *)
(* its images, are), interleaved with writes.                               *)
EXTENDS Loader, Json
CONSTANT N
VARIABLES fs, pts, step
vars == <<fs, pts, step>>

All == << [kind |-> "temporal", exp |-> 1, ph |-> 0, files |-> <<"a", "b">>],
          [kind |-> "temporal", exp |-> 1, ph |-> 5, files |-> <<"b", "c">>],
          [kind |-> "temporal", exp |-> 2, ph |-> 0, files |-> <<"c", "b">>],
          [kind |-> "temporal", exp |-> 2, ph |-> 5, files |-> <<"a", "a">>],
          [kind |-> "spatial", exp |-> 1, ph |-> 0, files |-> <<"a", "b", "c">>],
          [kind |-> "spatial", exp |-> 1, ph |-> 5, files |-> <<"d", "d", "d">>] >>
Shapes == << <<<<1, 2>>>>, <<<<7, 0>>>>, <<<<3>>, <<4>>>> >>
Id == [mul |-> 1, add |-> 0]
Init == /\ fs = ("a" :> <<Shapes[1]>>) @@ ("b" :> <<Shapes[2]>>) @@ ("c" :> <<Shapes[1]>>) @@ ("d" :> <<Shapes[2]>>)
        /\ pts \in {s \in SUBSET DOMAIN All : s # {}} /\ step = 0
Next == /\ step < N /\ step' = step + 1 /\ pts' = pts
        /\ \E f \in {"a", "d"} :
             \/ \E s \in DOMAIN Shapes : fs' = Write(fs, f, <<Shapes[s]>>)
             \/ f \in DOMAIN fs /\ fs' = Delete(fs, f)
Spec == Init /\ [][Next]_vars
P(s) == LET q == SetToSortSeq(s, <) IN [k \in DOMAIN q |-> All[q[k]]]
E == Errors(fs, P(pts), "")
Used(p) == {p.files[j] : j \in DOMAIN p.files}
(* a point depends on its own files only *)
Frame == [][ \A k \in pts :
              (/\ E = {} /\ Errors(fs', P(pts), "") = {}
               /\ \A f \in Used(All[k]) : fs'[f] = fs[f])
              => Entry(fs', All[k], "", Id) = Entry(fs, All[k], "", Id) ]_vars
(* nothing is lost, and the temporal totals are the totals of the images    *)
Kept == E = {} => LET d == Load(fs, P(pts), "", Id) IN
   /\ Len(d.pts) = Cardinality(pts)
   /\ \A k \in DOMAIN d.pts : d.pts[k].kind = "temporal" =>
        RSame(d.pts[k].sum[1], RSum([j \in 1..2 |-> RSum(fs[P(pts)[k].files[j]][1])]))
(* points can be loaded apart when each part is valid by itself             *)
Apart == \A s \in SUBSET pts :
  (E = {} /\ s # {} /\ Errors(fs, P(s), "") = {}) =>
     {Load(fs, P(s), "", Id).pts[k] : k \in DOMAIN P(s)} \subseteq {Load(fs, P(pts), "", Id).pts[k] : k \in DOMAIN P(pts)}
Emit == PrintT("SCN " \o ToJson([fs |-> [f \in DOMAIN fs |-> fs[f][1]], pts |-> P(pts)]))
Inv == Kept /\ Apart /\ Emit
=============================================================================
