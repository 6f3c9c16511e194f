----------------------------- MODULE MC_Recover -----------------------------
(* Configurations of the simulated camera whose figures can be recovered,   *)
(* and laws of the bounds: they shrink with the number of pixels, and the   *)
(* split of a pattern into columns, rows and pixels is complete.            *)
EXTENDS Recover, Json, TLC
CONSTANTS Bits, Gains, Noises, Currents, Temps, Patterns
VARIABLES g
vars == <<g>>
Dsnu(p) == [i \in 1..4 |-> [j \in 1..5 |-> IF p = 1 THEN 0 ELSE IF p = 2 THEN i ELSE IF p = 3 THEN 2 * j ELSE (i * j) % 3]]
Prnu(p) == [i \in 1..4 |-> [j \in 1..5 |-> RAdd(1, IF p = 1 THEN 0 ELSE RDiv(IF p = 2 THEN j - 3 ELSE IF p = 3 THEN i - 2 ELSE ((i * j) % 3) - 1, 50))]]
Config(b, k, s, i, te, p, m) ==
  [M |-> 4, N |-> 5, L |-> 4, bits |-> b, K |-> RDiv(k, 4), s2 |-> s * s, ds0 |-> 8 * s, iref |-> i, tref |-> 20, tdbl |-> 10,
   temp |-> te, qe |-> RDiv(1, 2), area |-> 25, bo |-> 2, uesat |-> 100000, dsnu |-> Dsnu(p), prnu |-> Prnu(p), mode |-> m]
Init == \E b \in Bits, k \in Gains, s \in Noises, i \in Currents, te \in Temps, p \in Patterns, m \in {"exposure", "light"} :
          /\ g = Config(b, k, s, i, te, p, m)
          /\ Admissible(g)
Next == UNCHANGED g
Spec == Init /\ [][Next]_vars
b3 == [k \in 1..4 |-> [kind |-> "temporal", exp |-> IF g.mode = "light" THEN 1000 ELSE 1000 * k, ph |-> 100 * k]]
Larger == [g EXCEPT !.M = 8]
Shrinks == /\ RLt(KVar(Larger, b3), KVar(g, b3)) /\ RLt(RVar(Larger, b3), RVar(g, b3)) /\ RLt(0, KVar(g, b3))
           /\ RLt(NoiseVar(Larger, <<1, 2, 5>>).u, NoiseVar(g, <<1, 2, 5>>).u)
           /\ RLt(SpatVar(Larger, Pix(Larger), 1, 1, 1), SpatVar(g, Pix(g), 1, 1, 1))
Split(q) == REq(q.all, RAdd(q.col, RAdd(q.row, q.pixel)))
Splits == Split(Pattern(g.dsnu)) /\ Split(Pattern(LitPattern(g, 100)))
Even == LET q == Pattern(Dsnu(1)) IN \A x \in DOMAIN q : REq(q[x], 0)
Doubles == RClose(Current([g EXCEPT !.temp = RAdd(@, g.tdbl)]), RMul(2, Current(g)), RPow(10, -30), 0)
(* the true values are recovered exactly *)
True3 == GainOk(g, b3, 2, g.K) /\ QeOk(g, b3, 2, RMul(50, PrnuMean(g))) /\ ResponsivityOk(g, b3, 2, RMul(g.K, Eff(g)))
Emit == PrintT("SCN " \o ToJson([bits |-> g.bits, k |-> RToInt(RMul(4, g.K)), s |-> RToInt(RDiv(g.ds0, 8)), i |-> g.iref, temp |-> g.temp,
                                 mode |-> g.mode, p |-> g.dsnu = Dsnu(1)]))
Inv == Shrinks /\ Splits /\ Even /\ Doubles /\ True3 /\ Emit
=============================================================================
