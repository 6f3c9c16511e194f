----------------------------- MODULE MC_Defect -----------------------------
(* Laws of the histogram (mode "h", pixel by pixel) and of the high-pass    *)
(* filter (mode "f": 3x3 and 3x4 images; every mask of 3x3 in mode "m").    *)
EXTENDS Histogram, HighPass, Json
CONSTANTS V, QS, N, F
VARIABLES mode, s, q, cnt, done
vars == <<mode, s, q, cnt, done>>
Grow(vals, n) == Len(s) < n /\ \E x \in vals : s' = Append(s, x)
Init == /\ mode \in {"h", "f", "m"} /\ s = <<>> /\ cnt = <<>> /\ done = 0
        /\ q \in IF mode = "h" THEN QS ELSE {0}
Next == \/ /\ mode = "h" /\ cnt = <<>> /\ Grow(V, N) /\ UNCHANGED <<mode, q, cnt, done>>
        \/ /\ mode = "h" /\ cnt = <<>> /\ s # <<>>
           /\ cnt' = CountInit(s, q) /\ UNCHANGED <<mode, s, q, done>>
        \/ /\ mode = "h" /\ cnt # <<>> /\ done < Len(s)
           /\ cnt' = CountStep(cnt, s[done + 1], RMinS(s), Width(Spread(s), q))
           /\ done' = done + 1 /\ UNCHANGED <<mode, s, q>>
        \/ /\ mode = "f" /\ Grow({0, F}, 12) /\ UNCHANGED <<mode, q, cnt, done>>
        \/ /\ mode = "m" /\ Grow({0, 1}, 9) /\ UNCHANGED <<mode, q, cnt, done>>
Spec == Init /\ [][Next]_vars
Counted == RToInt(RSum(cnt))
Ints(a) == [k \in DOMAIN a |-> RToInt(a[k])]
HistOk == cnt # <<>> =>
  LET w == RToInt(Width(Spread(s), q)) b == Ints(BinStarts(s, q)) m == RToInt(RMinS(s)) IN
  /\ Counted = done
  /\ Len(cnt) <= q /\ b[1] = m /\ b[Len(b)] + w > RToInt(RMaxS(s)) /\ b[Len(b)] <= RToInt(RMaxS(s))
  /\ \A v \in 1..(w - 1) : RToInt(BinsFor(Spread(s), v)) > q
  /\ \A k \in DOMAIN cnt : cnt[k] = Len(SelectSeq(SubSeq(s, 1, done), LAMBDA x : b[k] <= x /\ x < b[k] + w))
  /\ done = Len(s) => /\ cnt = Counts(s, q)
                      /\ LET a == Ints(FromEnd(cnt)) IN a[1] = Len(s) /\ \A k \in DOMAIN a : k > 1 => a[k] <= a[k - 1]
Rect(z, w) == [y \in 1..(Len(z) \div w) |-> SubSeq(z, (y - 1) * w + 1, y * w)]
FilterOk ==
  /\ mode = "f" /\ Len(s) \in {9, 12} =>
       LET i == Rect(s, 3) f == FilteredValid(i, <<>>, 3)
           all == [y \in DOMAIN i |-> [x \in 1..3 |-> FALSE]] IN
       /\ Len(f) = Len(i) - 2
       /\ f = FilteredValid([y \in DOMAIN i |-> [x \in 1..3 |-> i[y][x] + 7]], <<>>, 3)    \* level
       /\ f = FilteredValid(i, all, 3) /\ ~Rejected(i, all, 3) /\ Rejected(i, <<>>, 2)
       /\ \A k \in DOMAIN f : RToInt(f[k]) \in (0 - 8 * F)..(8 * F)
  /\ mode = "m" /\ Len(s) = 9 =>
       LET m == [y \in 1..3 |-> [x \in 1..3 |-> s[(y - 1) * 3 + x] = 1]]
           i == <<<<1, 2, 4>>, <<8, 16, 32>>, <<64, 128, 256>>>> IN
       /\ Rejected(i, m, 3) = m[2][2]
       /\ ~m[2][2] => FilteredValid(i, m, 3) =
             <<RNum(16 * Len(SelectSeq(s, LAMBDA x : x = 0)) - RToInt(RSum(ValidPixels(i, m))))>>
Emit == IF \/ (mode = "h" /\ cnt # <<>> /\ done = Len(s)) \/ (mode = "f" /\ Len(s) \in {9, 12}) \/ (mode = "m" /\ Len(s) = 9)
        THEN PrintT("SCN " \o ToJson([mode |-> mode, s |-> s, q |-> q])) ELSE TRUE
Inv == HistOk /\ FilterOk /\ Emit
=============================================================================
