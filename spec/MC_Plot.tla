------------------------------ MODULE MC_Plot -------------------------------
(* The driver's loops over all short lists of plots and tests against       *)
(* Figures, and the curves of the standard plots over a small test.         *)
EXTENDS Plot, Json
CONSTANTS MaxTests, MaxPlots
VARIABLES tests, plots, k, j, figs
vars == <<tests, plots, k, j, figs>>
Seqs(S, a, b) == UNION {[1..n -> S] : n \in a..b}
Two == {"PlotPTC", "PlotUyDark", "PlotHorizontalProfile", "PlotVerticalSpectrogramPRNU", "PlotSNR"}
C(p, t) == <<<<p, t>>>>
Init == /\ tests \in Seqs({"d1", "d2"}, 1, MaxTests)
        /\ plots \in Seqs(Standard, 1, 1) \cup Seqs(Two, 0, MaxPlots)
        /\ k = 1 /\ j = 1 /\ figs = <<>>
All == <<"PlotPTC", "PlotSNR", "PlotSensitivity">>                \* (stands for the standard list)
Todo == IF plots = <<>> THEN All ELSE plots
Next == \/ k <= Len(Todo) /\ j = 1 /\ Len(figs) < k /\ figs' = Append(figs, <<>>) /\ UNCHANGED <<tests, plots, k, j>>
        \/ /\ k <= Len(Todo) /\ Len(figs) = k /\ j <= Len(tests)
           /\ figs' = [figs EXCEPT ![k] = @ \o [i \in DOMAIN C(Todo[k], tests[j]) |-> [test |-> tests[j], c |-> C(Todo[k], tests[j])[i]]]]
           /\ j' = j + 1 /\ UNCHANGED <<tests, plots, k>>
        \/ k <= Len(Todo) /\ j > Len(tests) /\ k' = k + 1 /\ j' = 1 /\ UNCHANGED <<tests, plots, figs>>
Spec == Init /\ [][Next]_vars
Done == k > Len(Todo)
Ok == Done => /\ figs = Figures(Todo, tests, C)
              /\ \A i \in DOMAIN figs : \A t \in {tests[n] : n \in DOMAIN tests} : \E n \in DOMAIN figs[i] : figs[i][n].test = t
Emit == IF Done THEN PrintT("SCN " \o ToJson([tests |-> tests, plots |-> plots])) ELSE TRUE

(* a test whose curves can be told by hand                                  *)
Sample ==
  [id |-> "1", mask |-> <<>>, L |-> 2, Ld |-> 2, bright |-> <<<<20, 24>>, <<22, 22>>>>, dark |-> <<<<2, 4>>, <<2, 4>>>>,
   d |-> [texp |-> <<5, 5, 5>>, u_p |-> <<10, 20, 30>>, u_y |-> <<6, 11, 16>>, u_ydark |-> <<1, 1, 1>>,
          s2_y |-> <<2, 3, 0>>, s2_ydark |-> <<1, 1, 1>>],
   f |-> [R |-> "1/2", K |-> "1/5", QE |-> 50, sigma_d |-> 1, u_p_min |-> 4, u_p_sat |-> 20, DSNU1288 |-> 0, PRNU1288 |-> 0,
          DSNU1288_DN |-> 1, sigma_2_y_stack |-> 4, sigma_2_y_stack_dark |-> 9, index_u_ysat |-> 1,
          index_sensitivity_min |-> 0, index_sensitivity_max |-> 1, index_linearity_min |-> 0, index_linearity_max |-> 1],
   lin |-> [a |-> "1/2", b |-> 0, dev |-> <<0, 0, 0>>],
   hist |-> [DSNU |-> [bins |-> <<1>>, values |-> <<4>>, model |-> <<4>>], PRNU |-> [bins |-> <<1>>, values |-> <<4>>, model |-> <<4>>],
             DSNU_accumulated |-> [bins |-> <<1>>, values |-> <<4>>], PRNU_accumulated |-> [bins |-> <<1>>, values |-> <<4>>]]]
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
ASSUME \A p \in Standard : Len(Curves(p, Sample)) > 0 /\ Len(HeadOf(p).title) > 0
ASSUME Same(Curves("PlotPTC", Sample)[1].x, <<5, 10, 15>>) /\ Same(Curves("PlotPTC", Sample)[1].y, <<1, 2, -1>>)
ASSUME Same(Curves("PlotPTC", Sample)[2].y, <<1, 2, 3>>) /\ Same(Curves("PlotPTC", Sample)[3].x, <<10>>)
ASSUME Same(Curves("PlotSNR", Sample)[1].x, <<10, 20>>)
ASSUME LET q == Profiles(Sample, FALSE) IN                       \* bright 9 10 / 10 9, dark 1 2 / 1 2
         /\ Same(q[4].y, <<"19/2", "19/2">>) /\ Same(q[1].y, <<10, 9>>) /\ Same(q[8].y, <<1, 2>>) /\ Same(q[8].x, <<0, 1>>)
ASSUME LET q == Profiles(Sample, TRUE) IN Same(q[8].x, <<"3/2", "3/2">>) /\ Same(q[8].y, <<0, 1>>) /\ Same(q[2].x, <<9, 9>>)
ASSUME LET q == Profiles([Sample EXCEPT !.mask = <<<<TRUE, FALSE>>, <<TRUE, FALSE>>>>], FALSE) IN
         Same(q[4].x, <<1>>) /\ Same(q[4].y, <<"19/2">>)
ASSUME LET s == Curves("PlotHorizontalSpectrogramDSNU", Sample)[1].y IN RClose(RMul(s[2], s[2]), "1/2", RPow(10, -12), 0) /\ REq(s[1], 0)
ASSUME LET s == Curves("PlotHorizontalSpectrogramPRNU", Sample)[1].y IN RClose(s[2], RMul("100/19", RSqrt(2)), RPow(10, -12), 0)
Inv == Ok /\ Emit
=============================================================================
