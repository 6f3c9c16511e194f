---------------------------- MODULE MC_CamState ----------------------------
(* Two cameras of one configuration and seed.  The first does anything, the *)
(* second repeats it later, at any pace; a third party disturbs (other      *)
(* cameras, conversions, global random numbers).                            *)
EXTENDS CamState, SequencesExt, Json, TLC
CONSTANTS MaxOps, MaxNoise
VARIABLES cams, log, prog, pc
vars == <<cams, log, prog, pc>>
G == [key |-> "g", kmin |-> 1, kmax |-> 3, ksteps |-> 5, bmin |-> 0, bmax |-> 10, bsteps |-> 3]
V(x) == RDecimal(Codes(x))
Sets == {<<"K", "1.26">>, <<"K", "9">>, <<"bo", "2.5">>, <<"bo", "7">>, <<"exp", "3">>, <<"temp", "0">>, <<"f", "2">>, <<"dsnu", "a">>}
Grabs == {<<"grab", "plain">>, <<"grab", "hot">>, <<"grab", "lit">>}
Ops == Sets \cup Grabs
Noise == {<<"conv", "photons">>, <<"conv", "radiance">>, <<"other", "">>, <<"global", "">>}
Start == [K |-> 1, bo |-> 0, exp |-> 1, temp |-> 22, f |-> 8, dsnu |-> "0"]
Val(op) == IF op[1] = "dsnu" THEN op[2] ELSE SetTo(G, op[1], V(op[2]))
Do(cam, op) ==
  IF op \in Grabs THEN Did(cam, op, cam.s)
  ELSE IF op \in Sets THEN Did(cam, op, [cam.s EXCEPT ![op[1]] = Val(op)])
  ELSE cam
Init == cams = [k \in 1..2 |-> New(G, Start)] /\ log = <<>> /\ prog = <<>> /\ pc = 0
NNoise == Cardinality({k \in DOMAIN log : log[k].op \in Noise})
Lead(op) == /\ Len(prog) < MaxOps
            /\ cams' = [cams EXCEPT ![1] = Do(@, op)] /\ prog' = Append(prog, op)
            /\ log' = Append(log, [cam |-> 1, op |-> op]) /\ UNCHANGED pc
Follow == /\ pc < Len(prog)
          /\ cams' = [cams EXCEPT ![2] = Do(@, prog[pc + 1])] /\ pc' = pc + 1
          /\ log' = Append(log, [cam |-> 2, op |-> prog[pc + 1]]) /\ UNCHANGED prog
Disturb(k, op) == /\ NNoise < MaxNoise /\ cams' = [cams EXCEPT ![k] = Do(@, op)]
                  /\ log' = Append(log, [cam |-> k, op |-> op]) /\ UNCHANGED <<prog, pc>>
Next == \/ \E op \in Ops : Lead(op)
        \/ Follow
        \/ \E k \in 1..2, op \in Noise : Disturb(k, op)
Spec == Init /\ [][Next]_vars

OnGrid == \A k \in 1..2 : /\ \E j \in 1..5 : REq(cams[k].s.K, GridAt(1, 3, 5, j))
                          /\ \E j \in 1..3 : REq(cams[k].s.bo, GridAt(0, 10, 3, j))
LastSet(k, what) ==
  LET idx == {j \in DOMAIN log : log[j].cam = k /\ log[j].op[1] = what} IN
  IF idx = {} THEN Start[what] ELSE Val(log[CHOOSE j \in idx : \A i \in idx : i <= j].op)
Sticks == \A k \in 1..2, what \in Fields : cams[k].s[what] = LastSet(k, what)
Accepts == \A op \in Sets : Snaps(G, op[1], IF op[1] = "dsnu" THEN op[2] ELSE V(op[2]), Val(op))
Twins == (pc = Len(prog)) => cams[1] = cams[2]
Behind == cams[2].hist = SubSeq(cams[1].hist, 1, pc + 1)
Done == Len(prog) = MaxOps /\ pc = MaxOps
Emit == IF Done /\ (\E op \in Grabs : \E k \in DOMAIN prog : prog[k] = op) THEN PrintT("SCN " \o ToJson(log)) ELSE TRUE
Inv == OnGrid /\ Sticks /\ Accepts /\ Twins /\ Behind /\ Emit
=============================================================================
