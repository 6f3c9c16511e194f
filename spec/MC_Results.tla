---------------------------- MODULE MC_Results ----------------------------
(* The search for the saturation as a loop against its definition, on all   *)
(* small variance series; ranges and fits on all small signal series;       *)
(* the split of the spatial variance on small values.                       *)
EXTENDS Results, Json
CONSTANTS VS, VY, NS, NY
VARIABLES mode, s, q, run
vars == <<mode, s, q, run>>
Init == /\ mode \in {"s2", "y", "split"} /\ q = SearchInit(<<>>) /\ run = FALSE
        /\ IF mode = "split" THEN s \in {<<a, b, c, e, m, n>> : a \in {5, 9}, b \in {0, 6}, c \in {0, 2}, e \in {1, 3}, m \in 2..4, n \in 3..4}
           ELSE s = <<>>
Grow == /\ mode \in {"s2", "y"} /\ ~run
        /\ Len(s) < (IF mode = "s2" THEN NS ELSE NY)
        /\ \E x \in (IF mode = "s2" THEN VS ELSE VY) : s' = Append(s, x)
        /\ UNCHANGED <<mode, q, run>>
Start == /\ mode = "s2" /\ Len(s) > 0 /\ ~run
         /\ q' = SearchInit(s) /\ run' = TRUE /\ UNCHANGED <<mode, s>>
Step == run /\ ~q.done /\ q' = SearchStep(s, q) /\ UNCHANGED <<mode, s, run>>
Next == Grow \/ Start \/ Step
Spec == Init /\ [][Next]_vars

SearchOk == mode = "s2" /\ run /\ q.done => q.at = Saturation(s)
(* the result never lies below one of the two points before it, and all     *)
(* points after it are reached by one of the two before them                *)
PeakOk == mode = "s2" /\ Len(s) > 0 => LET p == Saturation(s) IN
  /\ p \in Idx0(s)
  /\ \A j \in Idx0(s) : j \in {p - 1, p - 2} => RLt(At0(s, j), At0(s, p))
  /\ \A j \in Idx0(s) : j > p /\ j > 1 => \/ RLe(At0(s, j), At0(s, j - 1)) \/ RLe(At0(s, j), At0(s, j - 2))
D == [u_p |-> [k \in DOMAIN s |-> 3 * k], u_y |-> [k \in DOMAIN s |-> s[k] + 1],
      u_ydark |-> [k \in DOMAIN s |-> 1], s2_y |-> s, s2_ydark |-> [k \in DOMAIN s |-> 0], texp |-> [k \in DOMAIN s |-> 1]]
Ranges == mode = "y" => \A sat \in Idx0(s) :
  /\ AtLeast(D, sat, 5) # {} /\ LinMin(D, sat) <= sat
  /\ AtMost(D, sat, 70) \subseteq AtMost(D, sat, 95)
  /\ AtMost(D, sat, 70) # {} => /\ SensMax(D, sat) \in Idx0(s) /\ SensMax(D, sat) # sat
                                /\ SensMax(D, sat) <= LinMax(D, sat)
Steps == {<<RDiv(x, 7), RDiv(y, 5)>> : x \in {0 - 1, 0, 1}, y \in {0 - 1, 0, 1}}
Fits == mode = "y" /\ Len(s) >= 2 =>
  LET x == D.u_p f == Line(x, s) g == RelLine(x, s) h == [a |-> Slope0(x, s), b |-> 0] IN
  /\ RLt(0, g.det)
  /\ \A p \in Steps :
       LET m(z) == [a |-> RAdd(z.a, p[1]), b |-> RAdd(z.b, p[2])]
           m0 == [h EXCEPT !.a = RAdd(@, p[1])] IN
       /\ RLe(Sq(f, x, s), Sq(m(f), x, s)) /\ RLe(RelSq(g, x, s), RelSq(m(g), x, s))
       /\ RLe(Sq(h, x, s), Sq(m0, x, s))
SS == [mes |-> s[1], stack |-> s[2], cav |-> s[3], rav |-> s[4], L |-> 4, M |-> s[5], N |-> s[6]]
Split == mode = "split" => /\ REq(RAdd(ColPart(SS), RAdd(RowPart(SS), PixPart(SS))), Corrected(SS))
                           /\ LET T == [SS EXCEPT !.cav = s[4], !.rav = s[3], !.M = s[6], !.N = s[5]] IN
                              /\ REq(ColPart(T), RowPart(SS)) /\ REq(PixPart(T), PixPart(SS))
Emit == IF mode = "y" \/ (run /\ q.done) \/ mode = "split"
        THEN s = <<>> \/ PrintT("SCN " \o ToJson([mode |-> mode, s |-> s])) ELSE TRUE
Inv == SearchOk /\ PeakOk /\ Ranges /\ Fits /\ Split /\ Emit
=============================================================================
