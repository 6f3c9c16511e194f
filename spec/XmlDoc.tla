------------------------------- MODULE XmlDoc -------------------------------
(* Results documents: a sequence of figures [sec, name, kind, v, keys, arr] *)
(* kind "value": v is a number or "none"; kind "data": arrays arr under     *)
(* keys.  Names are sequences of character codes.                           *)
EXTENDS Rat, FiniteSets, SequencesExt

LowerCode(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [k \in DOMAIN s |-> LowerCode(s[k])]
Read(fig) == [fig EXCEPT !.sec = Lower(@), !.name = Lower(@), !.keys = [k \in DOMAIN @ |-> Lower(@[k])]]
Find(doc, sec, name) == SelectSeq(doc, LAMBDA f : f.sec = sec /\ f.name = name)
Sections(doc) == {doc[k].sec : k \in DOMAIN doc}
Names(doc, sec) == {doc[k].name : k \in {j \in DOMAIN doc : doc[j].sec = sec}}

SameNum(a, b) == IF a = "none" \/ b = "none" THEN a = "none" /\ b = "none" ELSE RSame(a, b)
SameArr(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RSame(a[k], b[k])
ArrOf(f, key) == f.arr[CHOOSE k \in DOMAIN f.keys : f.keys[k] = key]
SameFig(a, b) ==
  /\ a.kind = b.kind
  /\ a.kind = "value" => SameNum(a.v, b.v)
  /\ a.kind = "data" => /\ ToSet(a.keys) = ToSet(b.keys) /\ Len(a.keys) = Len(b.keys)
                        /\ \A k \in ToSet(a.keys) : SameArr(ArrOf(a, k), ArrOf(b, k))
(* the same figures in any order                                            *)
SameDoc(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in DOMAIN a : LET f == Find(b, a[k].sec, a[k].name) IN Len(f) = 1 /\ SameFig(a[k], f[1])

(* -- comparison ---------------------------------------------------------- *)
Digits == 7
Exp10(a) ==                                                   \* 10^e <= a < 10^(e+1), a > 0
  LET g == RToInt(RFloor(RDiv(RLn(a), RLn(10)))) IN
  IF RLt(a, RPow(10, g)) THEN g - 1 ELSE IF RLe(RPow(10, g + 1), a) THEN g + 1 ELSE g
Rounded(v) == IF REq(v, 0) THEN 0
              ELSE LET e == Exp10(RAbs(v)) IN RMul(RRint(RMul(v, RPow(10, Digits - 1 - e))), RPow(10, e - Digits + 1))
AgreeNum(a, b) == a # "none" /\ b # "none" /\ RIsFin(a) /\ RIsFin(b) /\ REq(Rounded(a), Rounded(b))
AgreeArr(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : AgreeNum(a[k], b[k])
AgreeFig(a, b) ==
  \/ a.kind = "value" /\ b.kind = "value" /\ AgreeNum(a.v, b.v)
  \/ a.kind = "data" /\ b.kind = "data" /\ ToSet(a.keys) = ToSet(b.keys)
     /\ \A k \in ToSet(a.keys) : AgreeArr(ArrOf(a, k), ArrOf(b, k))
Ok(d1, d2, sec, name) ==
  LET f == Find(d1, sec, name) g == Find(d2, sec, name) IN f # <<>> /\ g # <<>> /\ AgreeFig(f[1], g[1])

Present == <<80, 82, 69, 83, 69, 78, 84>>                      \* "PRESENT"
(* the lines [sec, name, ok] the comparison reports                         *)
ReportOf(d1, d2, sec) ==
  IF sec \in Sections(d1) /\ sec \in Sections(d2)
  THEN {[sec |-> sec, name |-> n, ok |-> Ok(d1, d2, sec, n)] : n \in Names(d1, sec) \cup Names(d2, sec)}
  ELSE {[sec |-> sec, name |-> Present, ok |-> FALSE]}
Report(d1, d2) == UNION {ReportOf(d1, d2, sec) : sec \in Sections(d1) \cup Sections(d2)}
=============================================================================
