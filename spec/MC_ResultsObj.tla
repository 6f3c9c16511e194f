---------------------------- MODULE MC_ResultsObj ----------------------------
(* All short histories: creations over two data sets, reads, catalogues,    *)
(* changes of returned values, plots and serialisations.  store is the data *)
(* as held in memory, hands the values handed out; a value handed out is a  *)
(* copy, so that changing it leaves store as created.                       *)
EXTENDS ResultsObj, Json
CONSTANTS Data, Args, MaxObjs, MaxLen
VARIABLES objs, store, hands, h
vars == <<objs, store, hands, h>>
Groups == {"scalar", "hist", "lin"}
Init == objs = <<>> /\ store = [d \in Data |-> d] /\ hands = <<>> /\ h = <<>>
Log(x) == h' = Append(h, x)
New == /\ Len(objs) < MaxObjs /\ \E d \in Data, a \in Args : objs' = Create(objs, d, a) /\ Log([op |-> "new", d |-> d, a |-> a])
       /\ UNCHANGED <<store, hands>>
Read == /\ \E o \in DOMAIN objs, g \in Groups : /\ hands' = Append(hands, [o |-> o, g |-> g, v |-> Answer(objs, o, g), clean |-> TRUE])
                                                /\ Log([op |-> "read", o |-> o, g |-> g])
        /\ UNCHANGED <<objs, store>>
Cat == /\ \E o \in DOMAIN objs : /\ hands' = Append(hands, [o |-> o, g |-> "all", v |-> Answer(objs, o, "all"), clean |-> TRUE])
                                 /\ Log([op |-> "cat", o |-> o])
       /\ UNCHANGED <<objs, store>>
Mutate == /\ hands # <<>> /\ hands[Len(hands)].clean
          /\ hands' = [hands EXCEPT ![Len(hands)].v = "changed", ![Len(hands)].clean = FALSE]
          /\ Log([op |-> "mutate"]) /\ UNCHANGED <<objs, store>>
Use == /\ \E o \in DOMAIN objs, u \in {"plot", "xml"} : Log([op |-> u, o |-> o])
       /\ UNCHANGED <<objs, store, hands>>
Next == Len(h) < MaxLen /\ (New \/ Read \/ Cat \/ Mutate \/ Use)
Spec == Init /\ [][Next]_vars
StoreOk == \A d \in Data : store[d] = d
PureOk == \A x \in DOMAIN hands : hands[x].clean => hands[x].v = [d |-> store[objs[hands[x].o].d], a |-> objs[hands[x].o].a, f |-> hands[x].g]
SameOk == \A x, y \in DOMAIN hands : (hands[x].clean /\ hands[y].clean /\ hands[x].g = hands[y].g
                                      /\ objs[hands[x].o] = objs[hands[y].o]) => hands[x].v = hands[y].v
Sections == {Section[f] : f \in Figures}
CatOk == Cardinality(Figures) = 61 /\ Sections = {"sensitivity", "linearity", "dark_current", "defect_pixel", "spatial", "info"}
Emit == IF Len(h) = MaxLen THEN PrintT("SCN " \o ToJson([h |-> h])) ELSE TRUE
Inv == StoreOk /\ PureOk /\ SameOk /\ CatOk /\ Emit
=============================================================================
