------------------------------ MODULE Dataset ------------------------------
(* Generated datasets: the operation points of a series and the machine     *)
(* that grabs, saves and describes their images.                            *)
EXTENDS Camera, Descriptor

Lin(lo, hi, n, k) == IF n = 1 THEN lo ELSE RAdd(lo, RMul(RDiv(RSub(hi, lo), n - 1), k - 1))
(* a setting g: mode "exposure" or "light", steps, L, emin, emax (exposures *)
(* of the series) and lmin, lmax (its radiances).  A point is [kind, exp,   *)
(* step, lit, n].                                                           *)
Mid(steps) == (steps \div 2) + 1
ExpAt(g, k) == IF g.mode = "exposure" THEN Lin(g.emin, g.emax, g.steps, k) ELSE g.emin
Pt(g, kind, k, lit, n) == [kind |-> kind, exp |-> ExpAt(g, k), step |-> IF lit THEN k ELSE 0, lit |-> lit, n |-> n]
RECURSIVE Series(_, _)
Series(g, k) ==
  IF k > g.steps THEN IF g.mode = "light" THEN <<Pt(g, "temporal", 1, FALSE, 2)>> ELSE <<>>
  ELSE (IF g.mode = "exposure" THEN <<Pt(g, "temporal", k, TRUE, 2), Pt(g, "temporal", k, FALSE, 2)>>
        ELSE <<Pt(g, "temporal", k, TRUE, 2)>>) \o Series(g, k + 1)
Points(g) == Series(g, 1) \o <<Pt(g, "spatial", Mid(g.steps), TRUE, g.L), Pt(g, "spatial", Mid(g.steps), FALSE, g.L)>>

---------------------------------------------------------------------------
(* The generator: writes the lines of a point, then grabs and saves its     *)
(* images one by one.                                                       *)
GInit == [k |-> 1, left |-> -1, text |-> <<>>, nimg |-> 0, files |-> <<>>, exp |-> 0, lit |-> FALSE]
LOCAL Line(s, str) == [s EXCEPT !.text = @ \o str \o <<10>>]
LOCAL Tenths(e) == LET n == RRint(RMul(10, e)) IN
                   Codes(ToString(RToInt(RFloor(RDiv(n, 10))))) \o <<46>> \o Codes(ToString(RToInt(RMod(n, 10))))
GHead(s, bits, w, h) == Line(Line(s, Codes("v 4.0")), Codes("n " \o ToString(bits) \o " " \o ToString(w) \o " " \o ToString(h)))
(* ph: the photons of the point *)
GPoint(s, p, ph) ==
  [Line(s, (IF p.lit THEN Codes("b ") ELSE Codes("d ")) \o Tenths(p.exp)
           \o (IF p.lit THEN <<32>> \o Codes(ToString(ph)) \o Codes(".000") ELSE <<>>))
   EXCEPT !.left = p.n, !.exp = p.exp, !.lit = p.lit]
GGrab(s, name(_)) ==
  LET t == Line(s, Codes("i images\\" \o name(s.nimg))) IN
  [t EXCEPT !.nimg = @ + 1, !.left = @ - 1, !.k = IF s.left = 1 THEN @ + 1 ELSE @,
            !.files = Append(@, [name |-> name(s.nimg), exp |-> s.exp, lit |-> s.lit])]
---------------------------------------------------------------------------
(* Gain and black offset that are not given: the lowest ones of their grids *)
(* with enough noise and few enough zeros in the dark, the highest if none  *)
(* has.  A dark camera d: mean and v, the electrons of a pixel, normally    *)
(* distributed (v = 0: mean and dsnu, one number per pixel), n pixels, top, *)
(* esat.                                                                    *)
(* probability of a grey value of at most k                                 *)
AtMost(d, K, bo, k) ==
  LET e == RDiv(RSub(RAdd(k, "1/2"), bo), K) IN
  IF k < 0 THEN 0 ELSE IF k >= d.top THEN 1 ELSE IF RLt(e, 0) THEN 0 ELSE IF RLe(d.esat, e) THEN 1
  ELSE RPhi(RDiv(RSub(e, d.mean), RSqrt(d.v)))
Zeros(d, K, bo) ==            \* expected number of zeros
  IF REq(d.v, 0) THEN Cardinality({i \in DOMAIN d.dsnu : RLe(RAdd(RMul(K, RMax(0, RMin(d.esat, RAdd(d.mean, d.dsnu[i])))), bo), "1/2")})
  ELSE RMul(d.n, AtMost(d, K, bo, 0))
(* the grey values' variance and fourth moment                              *)
Spread(d, K, bo) ==
  LET mu == RAdd(RMul(K, d.mean), bo) sd == RMul(K, RSqrt(d.v))
      a == RToInt(RMax(0, RFloor(RSub(mu, RMul(8, sd))))) b == RToInt(RMin(d.top, RAdd(2, RFloor(RAdd(mu, RMul(8, sd))))))
      F == [k \in 1..(b - a + 2) |-> AtMost(d, K, bo, a + k - 2)]          \* at most a - 1, ..., b
      P == [k \in 1..(b - a + 1) |-> RSub(F[k + 1], F[k])]                 \* a, ..., b
      m == RSum([k \in DOMAIN P |-> RMul(k, P[k])])
      M(j) == RSum([k \in DOMAIN P |-> RMul(RPow(RSub(k, m), j), P[k])])
  IN [v |-> M(2), m4 |-> M(4)]
Slack(d, sp) == RMul(6, RSqrt(RDiv(RAdd(sp.m4, RMul(sp.v, sp.v)), 2 * d.n)))
(* what is certain, but for one case in 10^9                                *)
FewZeros(d, K, bo) == LET z == Zeros(d, K, bo) IN
  IF REq(d.v, 0) THEN RLt(RMul(200, z), d.n) ELSE RLt(RAdd(6, RAdd(z, RMul(6, RSqrt(z)))), RDiv(d.n, 200))
ManyZeros(d, K, bo) == LET z == Zeros(d, K, bo) IN
  IF REq(d.v, 0) THEN RLt(d.n, RMul(200, z)) ELSE RLt(RDiv(d.n, 200), RSub(RSub(z, RMul(6, RSqrt(z))), 6))
Noisy(d, K, bo) == ~REq(d.v, 0) /\ LET sp == Spread(d, K, bo) IN RLt("1/4", RSub(sp.v, Slack(d, sp)))
Calm(d, K, bo) == REq(d.v, 0) \/ LET sp == Spread(d, K, bo) IN RLt(RAdd(sp.v, Slack(d, sp)), "1/4")
OffsetOk(d, bos, K, bo) ==
  \E i \in DOMAIN bos : /\ RSame(bos[i], bo)
                        /\ (i < Len(bos) => ~ManyZeros(d, K, bo))
                        /\ \A j \in 1..(i - 1) : ~FewZeros(d, K, bos[j])
GainOk(d, Ks, K, bo) ==
  \E i \in DOMAIN Ks : /\ RSame(Ks[i], K)
                       /\ (i < Len(Ks) => ~Calm(d, K, bo))
                       /\ \A j \in 1..(i - 1) : ~Noisy(d, Ks[j], bo)
=============================================================================
