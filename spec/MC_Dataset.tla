----------------------------- MODULE MC_Dataset -----------------------------
(* The generator for all small settings; what it wrote is parsed back.      *)
EXTENDS Dataset, Json, TLC
CONSTANTS MaxSteps, Ls
VARIABLES g, s
vars == <<g, s>>
Name(n) == "image" \o ToString(n) \o ".png"
P == Points(g)
Init == /\ \E m \in {"exposure", "light"}, n \in 1..MaxSteps, L \in Ls :
             g = [mode |-> m, steps |-> n, L |-> L, emin |-> IF m = "light" THEN 700 ELSE 100, emax |-> 1000]
        /\ s = GHead(GInit, 8, 5, 4)
Point == s.k <= Len(P) /\ s.left <= 0 /\ s' = GPoint(s, P[s.k], 10 * P[s.k].step) /\ UNCHANGED g
Grab == s.k <= Len(P) /\ s.left > 0 /\ s' = GGrab(s, Name) /\ UNCHANGED g
Next == Point \/ Grab
Spec == Init /\ [][Next]_vars
Done == s.k > Len(P)
R == ParseText(s.text)
Fits(q, p) == q.kind = p.kind /\ RClose(q.exp, p.exp, 0, RDiv(1, 19)) /\ REq(q.ph, 10 * p.step) /\ Len(q.files) = p.n
Complete == Done =>
  /\ R.bad = {} /\ ~R.loose /\ [k \in 1..3 |-> RToInt(R.fmt[k])] = <<8, 5, 4>>
  /\ Len(R.pts) = Len(P)
  /\ \A k \in DOMAIN P : \E j \in DOMAIN R.pts : Fits(R.pts[j], P[k])
  /\ LET all == UNION {{R.pts[k].files[j] : j \in DOMAIN R.pts[k].files} : k \in DOMAIN R.pts} IN
     Cardinality(all) = s.nimg /\ Len(s.files) = s.nimg
  /\ s.nimg = (IF g.mode = "exposure" THEN 4 * g.steps ELSE 2 * (g.steps + 1)) + 2 * g.L
  /\ \A k \in DOMAIN R.pts : \E j \in DOMAIN R.pts : /\ R.pts[j].kind = R.pts[k].kind /\ R.pts[j].exp = R.pts[k].exp
                                                     /\ REq(R.pts[j].ph, 0)
(* every image belongs to the series that is open where its line stands     *)
Belongs == LET r == FoldLeft(Step, PInit, TokenLines(s.text)) IN
  (s.nimg > 0 /\ s.left >= 0 /\ r.cur # <<>>) =>
     /\ RClose(r.cur[1], s.exp, 0, RDiv(1, 19)) /\ REq(r.cur[2], 0) = ~s.lit
Emit == IF Done THEN PrintT("SCN " \o ToJson(g)) ELSE TRUE
Inv == Complete /\ Belongs /\ Emit
(* the noise of a dark camera; settings chosen from grids                   *)
Cam(mean, v) == [mean |-> mean, v |-> v, n |-> 10000, top |-> 255, esat |-> 10000, dsnu |-> <<0, 0, 5>>]
Near(a, b, tol) == RClose(a, b, 0, tol)
ASSUME LET sp == Spread(Cam(50, 100), 1, 0) IN Near(sp.v, "1201/12", "1/1000") /\ Near(sp.m4, RMul(3, RMul(sp.v, sp.v)), 5)
ASSUME LET sp == Spread(Cam(50, 1), "1/100", 0) IN Near(sp.v, "1/4", "1/1000")      \* half way between two grey values
ASSUME LET sp == Spread(Cam(50, 1), "1/100", "1/2") IN Near(sp.v, 0, "1/1000")      \* at a grey value
ASSUME Near(Zeros(Cam(50, 100), "1/100", 0), 5000, "1/1000") /\ REq(Zeros(Cam(2, 0), "1/10", 0), 2)
ASSUME \A k \in 0..4 : RLe(AtMost(Cam(2, 4), 1, 0, k - 1), AtMost(Cam(2, 4), 1, 0, k))
ASSUME \A k \in 1..4 : LET d == Cam(1000, 10000) Ks == <<"1/1000", "2/1000", "1/100", "1/10">> IN
         GainOk(d, Ks, Ks[k], 0) = (k = 3)
ASSUME \A k \in 1..3 : LET bos == <<0, "2/5", 1>> IN
         /\ OffsetOk(Cam(0, 100), bos, "1/10", bos[k]) = (k = 3) /\ OffsetOk(Cam(500, 1), bos, "1/10", bos[k]) = (k = 1)
         /\ OffsetOk([Cam(0, 0) EXCEPT !.n = 3], bos, "1/1000", bos[k]) = (k = 3)
=============================================================================
