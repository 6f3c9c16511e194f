----------------------------- MODULE ResultsObj -----------------------------
(* Results objects over data, as a machine: objects are created over a data *)
(* set with arguments; reads and catalogues return values, which the caller *)
(* may change; plots and serialisations use the objects.  A value is the    *)
(* outcome o, the names k of its parts and the numbers v of each part.      *)
EXTENDS Rat, FiniteSets, SequencesExt

Section ==
  LET sens == {"DR", "DR_dB", "K", "QE", "R", "SNR_max", "SNR_max_bit", "SNR_max_dB", "index_sensitivity_max",
               "index_sensitivity_min", "index_u_ysat", "inverse_K", "inverse_SNR_max", "sigma_d", "sigma_y_dark",
               "u_e_min", "u_e_min_area", "u_e_sat", "u_e_sat_area", "u_p_min", "u_p_min_area", "u_p_sat", "u_p_sat_area"}
      lin == {"LE_max", "LE_min", "index_linearity_max", "index_linearity_min"}
      dark == {"u_I_mean", "u_I_mean_DN", "u_I_var", "u_I_var_DN"}
      defect == {"histogram_DSNU", "histogram_DSNU_accumulated", "histogram_PRNU", "histogram_PRNU_accumulated"}
      spat == {"DSNU1288", "DSNU1288_DN", "DSNU1288_col", "DSNU1288_pixel", "DSNU1288_row", "PRNU1288", "PRNU1288_col",
               "PRNU1288_pixel", "PRNU1288_row", "s_2_y", "s_2_y_cav", "s_2_y_cav_dark", "s_2_y_col", "s_2_y_col_dark",
               "s_2_y_dark", "s_2_y_measured", "s_2_y_measured_dark", "s_2_y_pixel", "s_2_y_pixel_dark", "s_2_y_rav",
               "s_2_y_rav_dark", "s_2_y_row", "s_2_y_row_dark", "sigma_2_y_stack", "sigma_2_y_stack_dark"}
  IN [f \in sens \cup lin \cup dark \cup defect \cup spat \cup {"index_start"} |->
        IF f \in sens THEN "sensitivity" ELSE IF f \in lin THEN "linearity" ELSE IF f \in dark THEN "dark_current"
        ELSE IF f \in defect THEN "defect_pixel" ELSE IF f \in spat THEN "spatial" ELSE "info"]
Figures == DOMAIN Section

SameVal(a, b) ==
  /\ a.o = b.o
  /\ a.o = "ok" => /\ a.k = b.k /\ Len(a.v) = Len(b.v)
                   /\ \A i \in DOMAIN a.v : Len(a.v[i]) = Len(b.v[i]) /\ \A j \in DOMAIN a.v[i] :
                        RSame(a.v[i][j], b.v[i][j]) \/ (RIsFin(a.v[i][j]) /\ RIsFin(b.v[i][j])
                                                       /\ RClose(a.v[i][j], b.v[i][j], RPow(10, -9), RPow(10, -250)))
Has(rows, f) == \E k \in DOMAIN rows : rows[k].name = f

(* the machine: objs, each a data set and arguments; hands: what callers    *)
(* hold                                                                     *)
Create(objs, d, a) == Append(objs, [d |-> d, a |-> a])
Answer(objs, o, f) == [d |-> objs[o].d, a |-> objs[o].a, f |-> f]       \* uninterpreted: a function of these only
=============================================================================
