-------------------------------- MODULE Chain --------------------------------
(* The whole system: image files and descriptor files on a file system, and *)
(* facades made from descriptors.  A facade is the evaluation of what the   *)
(* files held when it was made: Descriptor, then Loader, then DataPrep,     *)
(* then Results.  Files are named by their path segments.                   *)
EXTENDS Rat, SequencesExt, FiniteSets, TLC
LOCAL D == INSTANCE Descriptor
LOCAL P == INSTANCE DataPrep
LOCAL B == INSTANCE Results

Segs(w) == D!Segments(w)
Folder(path) == FoldLeft(LAMBDA a, s : a \o <<47>> \o s, <<>>, Front(path))

(* the points of a parsed text, with their images *)
Named(p, path) == [k \in DOMAIN p.pts |-> [kind |-> p.pts[k].kind, exp |-> p.pts[k].exp, ph |-> p.pts[k].ph,
                     at |-> [j \in DOMAIN p.pts[k].files |-> D!Place(Folder(path), p.pts[k].files[j])]]]
Kinds(pts, kind) == SelectSeq(pts, LAMBDA q : q.kind = kind)

LoadErrors(img, pts) ==
  LET files == UNION {ToSet(pts[k].at) : k \in DOMAIN pts}
      same(k) == {j \in DOMAIN pts : pts[j].kind = pts[k].kind /\ REq(pts[j].exp, pts[k].exp)}
  IN (IF \A k \in DOMAIN pts : Cardinality(same(k)) >= 2 /\ \E j \in same(k) : REq(pts[j].ph, 0) THEN {} ELSE {"ValueError"})
     \cup (IF files \subseteq DOMAIN img THEN {} ELSE {"OSError"})
     \cup (IF Cardinality({P!Shape(img[f]) : f \in files \cap DOMAIN img}) > 1 THEN {"ValueError"} ELSE {})

Temporal(tp) ==
  LET b == P!BrightSeries(tp) d == P!DarkSeries(tp)
      Vals(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k].imgs)]
  IN [texp |-> [k \in DOMAIN d |-> d[k].exp], u_p |-> [k \in DOMAIN b |-> b[k].ph],
      u_y |-> Vals(b, P!TMean), s2_y |-> Vals(b, P!TVar), u_ydark |-> Vals(d, P!TMean), s2_ydark |-> Vals(d, P!TVar)]
LOCAL Part(imgs) ==
  LET s == P!Spatial(imgs) IN [mes |-> s.avg_var, stack |-> s.var_mean, cav |-> s.cav, rav |-> s.rav,
                               L |-> s.L, M |-> s.M, N |-> s.N, mean |-> s.avg_mean]
Spatial(sp) == LET e == sp[1].exp IN
  [bright |-> Part(P!Bright(sp, e)[1].imgs), dark |-> Part(P!Dark(sp, e)[1].imgs)]
(* rounding error of the variances *)
Rounding(pts) ==
  LET top == RAdd(1, RMaxS([k \in DOMAIN pts |-> RMaxS([j \in DOMAIN pts[k].imgs |-> RMaxS(RVAbs(pts[k].imgs[j]))])]))
  IN RMul(RPow(10, -9), top)

(* What a facade made of the descriptor at path evaluates; bad: the errors  *)
(* making it may raise; loose: it is not said whether it raises.            *)
Nothing(errors, loose) == [bad |-> errors, loose |-> loose, d |-> <<>>, sp |-> <<>>, tol |-> 0]
Evaluate(img, txt, path) ==
  IF path \notin DOMAIN txt THEN Nothing({"OSError"}, FALSE)
  ELSE LET p == D!ParseText(txt[path]) IN
  IF p.bad # {} \/ p.loose THEN Nothing(p.bad, p.loose)
  ELSE LET named == Named(p, path) err == LoadErrors(img, named) IN
  IF err # {} THEN Nothing(err, FALSE)
  ELSE LET pts == [k \in DOMAIN named |-> [kind |-> named[k].kind, exp |-> named[k].exp, ph |-> named[k].ph,
                                           imgs |-> [j \in DOMAIN named[k].at |-> img[named[k].at[j]]]]]
           tp == Kinds(pts, "temporal") sp == Kinds(pts, "spatial")
       IN IF tp = <<>> \/ sp = <<>> THEN Nothing({}, TRUE)
          ELSE IF P!TemporalErrors(tp) \cup P!SpatialErrors(sp) # {}
          THEN Nothing(P!TemporalErrors(tp) \cup P!SpatialErrors(sp), FALSE)
          ELSE [bad |-> {}, loose |-> FALSE, d |-> Temporal(tp), sp |-> Spatial(sp), tol |-> Rounding(pts)]

(* Rounding could decide where the variance peaks.                          *)
NearTie(v) ==
  LET s == v.d.s2_y IN
  \E i \in 2..Len(s) : \E j \in {i - 1, RToInt(RMax(1, i - 2))} : RClose(s[i], s[j], RPow(10, -8), RMul(4, v.tol))

------------------------------------------------------------- (* machine *)
CInit == [img |-> [x \in {} |-> <<>>], txt |-> [x \in {} |-> <<>>], made |-> [x \in {} |-> <<>>]]
Image(s, path, rows) == [s EXCEPT !.img = (path :> rows) @@ @]
Lose(s, path) == [s EXCEPT !.img = [x \in DOMAIN @ \ {path} |-> @[x]]]
Describe(s, path, text) == [s EXCEPT !.txt = (path :> text) @@ @]
Make(s, k, path) == [s EXCEPT !.made = (k :> Evaluate(s.img, s.txt, path)) @@ @]
=============================================================================
