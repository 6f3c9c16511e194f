------------------------------- MODULE Loader -------------------------------
(* Loading the images of a parsed descriptor.  The state is the file        *)
(* system, a function from path to image file (a sequence of channels, each *)
(* a sequence of rows); a load is a function of it and of the images        *)
(* dictionary, a sequence of points [kind, exp, ph, files].                 *)
EXTENDS Reduce, FiniteSets, TLC

NoFiles == [x \in {} |-> <<>>]
Write(fs, name, chans) == (name :> chans) @@ fs
Delete(fs, name) == [x \in DOMAIN fs \ {name} |-> fs[x]]

Under(path, name) == IF path = "" THEN name ELSE path \o "/" \o name
(* what a loading function makes of a file: x * mul + add of channel 1      *)
Content(fs, name, fload) == RVShift(RVScale(fs[name][1], fload.mul), fload.add)

Is(p, kind, exp) == p.kind = kind /\ REq(p.exp, exp)
Errors(fs, points, path) ==
  LET files == UNION { {Under(path, points[k].files[j]) : j \in DOMAIN points[k].files} : k \in DOMAIN points }
      at(p) == {k \in DOMAIN points : Is(points[k], p.kind, p.exp)}
      there == files \cap DOMAIN fs
  IN (IF \E k \in DOMAIN points : \/ ~\E j \in at(points[k]) : REq(points[j].ph, 0)
                                  \/ Cardinality(at(points[k])) < 2
      THEN {"ValueError"} ELSE {})
     \cup (IF files \subseteq DOMAIN fs THEN {} ELSE {"OSError"})
     \cup (IF Cardinality({Shape(fs[f][1]) : f \in there}) > 1 THEN {"ValueError"} ELSE {})

PointStack(fs, p, path, fload) ==
  Stack([j \in DOMAIN p.files |-> Content(fs, Under(path, p.files[j]), fload)])

(* The loaded data: one entry per point, totals for temporal points.        *)
Entry(fs, p, path, fload) ==
  LET r == PointStack(fs, p, path, fload) IN
  IF p.kind = "temporal"
  THEN [kind |-> p.kind, exp |-> p.exp, ph |-> p.ph, L |-> 0,
        sum |-> <<RSum(r.sum)>>, pvar |-> <<RSum(PVar(r))>>, dmean |-> DMean(r), top |-> Scale(r)]
  ELSE [kind |-> p.kind, exp |-> p.exp, ph |-> p.ph, L |-> r.L,
        sum |-> RFlat(r.sum), pvar |-> RFlat(PVar(r)), dmean |-> DMean(r), top |-> Scale(r)]
Load(fs, points, path, fload) ==
  [pts |-> [k \in DOMAIN points |-> Entry(fs, points[k], path, fload)],
   shape |-> Shape(fs[Under(path, points[1].files[1])][1])]
=============================================================================
