----------------------------- MODULE MC_XmlDoc -----------------------------
(* All pairs of small documents, built figure by figure and compared        *)
(* section by section.                                                      *)
EXTENDS XmlDoc, Json
CONSTANTS Vals, Arrs, MaxFigs
VARIABLES d, who, todo, rep
vars == <<d, who, todo, rep>>
Secs == {<<97>>, <<98>>}
Nms == {<<120>>, <<121>>}
Fig(sec, n, k, v, a) == [sec |-> sec, name |-> n, kind |-> k, v |-> v, keys |-> IF k = "data" THEN <<<<107>>>> ELSE <<>>,
                         arr |-> IF k = "data" THEN <<a>> ELSE <<>>]
(* numbers as strings, so that they can be elements of one set            *)
V == <<"none", "nan", "0", "1", RAdd(1, RPow(10, -8)), RAdd(1, RPow(10, -6)), RAdd(1, RMul(5, RPow(10, -7)))>>
Chosen == {V[k] : k \in Vals}
Arrays == {<<>>, <<"1">>, <<"1", "1">>, <<"1", V[5]>>, <<"nan">>}
Some == IF Arrs THEN Arrays ELSE {<<"1", "1">>}
Figures(sec, n) == {Fig(sec, n, "value", v, <<>>) : v \in Chosen} \cup {Fig(sec, n, "data", "none", a) : a \in Some}
Nobody == 3
Init == d = <<<<>>, <<>>>> /\ who = 1 /\ todo = {} /\ rep = {}
After(doc, sec, n) == \A k \in DOMAIN doc : doc[k].sec[1] < sec[1] \/ (doc[k].sec = sec /\ doc[k].name[1] < n[1])
Put == /\ who < Nobody /\ Len(d[who]) < MaxFigs
       /\ \E sec \in Secs, n \in Nms : After(d[who], sec, n) /\ \E f \in Figures(sec, n) : d' = [d EXCEPT ![who] = Append(@, f)]
       /\ UNCHANGED <<who, todo, rep>>
Turn == /\ who < Nobody /\ who' = who + 1 /\ UNCHANGED <<d, rep>>
        /\ todo' = IF who' = Nobody THEN Sections(d[1]) \cup Sections(d[2]) ELSE {}
Compare == /\ who = Nobody /\ todo # {}
           /\ LET sec == CHOOSE x \in todo : \A y \in todo : x[1] <= y[1] IN
              todo' = todo \ {sec} /\ rep' = rep \cup ReportOf(d[1], d[2], sec)
           /\ UNCHANGED <<d, who>>
Next == Put \/ Turn \/ Compare
Spec == Init /\ [][Next]_vars
Done == who = Nobody /\ todo = {}
Finite(f) == (f.kind = "value" => f.v \notin {"none", "nan"}) /\ (f.kind = "data" => \A k \in DOMAIN f.arr : \A j \in DOMAIN f.arr[k] : f.arr[k][j] # "nan")
CompareOk == Done =>
  /\ rep = Report(d[1], d[2])
  /\ Report(d[2], d[1]) = rep                                                \* symmetric
  /\ \A x, y \in rep : (x.sec = y.sec /\ x.name = y.name) => x = y           \* once
  /\ \A k \in DOMAIN d[1] : Ok(d[1], d[1], d[1][k].sec, d[1][k].name) = Finite(d[1][k])
  /\ \A x \in rep : x.ok => Find(d[1], x.sec, x.name) # <<>> /\ Find(d[2], x.sec, x.name) # <<>>
  /\ \A w \in 1..2 : \A k \in DOMAIN d[w] : \E x \in rep : x.sec = d[w][k].sec /\ x.name \in {d[w][k].name, Present}
  /\ (SameDoc(d[1], d[2]) /\ \A k \in DOMAIN d[1] : Finite(d[1][k])) => \A x \in rep : x.ok
RoundOk == \A k \in 1..5 :
  LET v == (<<3, 9, RPow(10, -5), RSub(RPow(10, 7), RPow(10, -3)), RMul(123456749, RPow(10, -4))>>)[k] IN
  /\ REq(Rounded(RMul(v, 1000)), RMul(Rounded(v), 1000)) /\ REq(Rounded(RNeg(v)), RNeg(Rounded(v)))
  /\ RClose(Rounded(v), v, RMul(5, RPow(10, -7)), 0) /\ REq(Rounded(Rounded(v)), Rounded(v))
ASSUME RoundOk
Emit == IF Done THEN PrintT("SCN " \o ToJson([d1 |-> d[1], d2 |-> d[2]])) ELSE TRUE
Inv == CompareOk /\ Emit
=============================================================================
