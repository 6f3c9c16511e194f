---------------------------- MODULE MC_DataPrep ----------------------------
(* Laws of the statistics on small stacks.  mode "t": pairs of 2x1 images;  *)
(* mode "s": stacks of 2x2 images; mode "p": sets of measurement points.    *)
EXTENDS DataPrep, Json
CONSTANTS V, N
VARIABLES mode, imgs, pts
vars == <<mode, imgs, pts>>
TImgs == {<<<<a, b>>>> : a \in V, b \in V}
SImgs == {<<<<a, b>>, <<c, 0>>>> : a \in V, b \in V, c \in V}
PtSet == {<<e, p>> : e \in {1, 2, 3}, p \in {0, 2, 4}}
Init == \/ mode = "t" /\ imgs = <<>> /\ pts = {}
        \/ mode = "s" /\ imgs = <<>> /\ pts = {}
        \/ mode = "p" /\ imgs = <<>> /\ pts \in SUBSET PtSet \ {{}}
Next == /\ mode' = mode /\ pts' = pts
        /\ \/ mode = "t" /\ Len(imgs) < 2 /\ \E i \in TImgs : imgs' = Append(imgs, i)
           \/ mode = "s" /\ Len(imgs) < N /\ \E i \in SImgs : imgs' = Append(imgs, i)
Spec == Init /\ [][Next]_vars

Temporal == mode = "t" /\ Len(imgs) = 2 =>
  LET r == Stack(imgs) px == 2 IN
  \* the sums route of the code: pvar/(4 px) - dmean^2/2
  /\ RSame(TVar(imgs), RSub(RDiv(RSum(PVar(r)), 4 * px), RDiv(RMul(DMean(r), DMean(r)), 2)))
  /\ RSame(TMean(imgs), RDiv(RSum(r.sum), 2 * px))
  /\ RLe(0, TVar(imgs))
  \* a uniform change of level between the images is not noise
  /\ RSame(TVar(<<imgs[1], RVShift(imgs[2], 9)>>), TVar(imgs))
  /\ RSame(TVar(Reverse(imgs)), TVar(imgs))
SpatialLaws == mode = "s" /\ Len(imgs) >= 2 =>
  LET s == Spatial(imgs) r == Stack(imgs) IN
  /\ RSame(s.var_mean, RDiv(RMean(PVar(r)), s.L * s.L * (s.L - 1)))
  /\ RLe(0, s.avg_var) /\ RLe(0, s.var_mean)
  \* total = columns + rows + rest, the rest not negative
  /\ RLe(RAdd(s.pcav, s.prav), RMul(s.avg_var, RDiv(s.M * s.N - 1, s.M * s.N)))
  \* transposition exchanges columns and rows
  /\ LET tr == [k \in DOMAIN imgs |-> [n \in 1..s.N |-> Column(imgs[k], n)]]
         u == Spatial(tr)
     IN RSame(u.pcav, s.prav) /\ RSame(u.cav, s.rav) /\ RSame(u.avg_var, s.avg_var)
  /\ (\A k \in DOMAIN imgs : imgs[k] = imgs[1]) <=> REq(s.var_mean, 0)
PSeq == LET q == SetToSeq(pts) IN [k \in DOMAIN q |-> [exp |-> q[k][1], ph |-> q[k][2], imgs |-> <<>>]]
Series == mode = "p" =>
  LET b == BrightSeries(PSeq) d == DarkSeries(PSeq) IN
  /\ Len(b) = Cardinality({q \in pts : q[2] # 0})
  /\ \A k \in DOMAIN b : k > 1 => \/ RLt(b[k - 1].exp, b[k].exp)
                                  \/ (b[k - 1].exp = b[k].exp /\ RLt(b[k - 1].ph, b[k].ph))
  /\ TemporalErrors(PSeq) = {} => /\ \A k \in DOMAIN d : REq(d[k].ph, 0)
                                  /\ {d[k].exp : k \in DOMAIN d} = {q[1] : q \in pts}
Emit == \/ (mode \in {"t", "s"} /\ Len(imgs) < 2)
        \/ PrintT("SCN " \o ToJson([mode |-> mode, imgs |-> imgs, pts |-> SetToSeq(pts)]))
Inv == Temporal /\ SpatialLaws /\ Series /\ Emit
=============================================================================
