---------------------------- MODULE MC_Spectrum ----------------------------
(* Laws of the spectrogram: the compression of masked images line by line   *)
(* (all masks), and the transform (all images over V of small sizes).       *)
EXTENDS Spectrum, FiniteSets, Json
CONSTANTS MaxRows, MaxCols, V, MaxPix
VARIABLES mode, w, s, c, y
vars == <<mode, w, s, c, y>>
Init == mode \in {"mask", "img"} /\ w \in 1..MaxCols /\ s = <<>> /\ c = CompressInit /\ y = 0
Vals == IF mode = "mask" THEN {0, 1} ELSE V
Cap == IF mode = "mask" THEN MaxRows * w ELSE MaxPix
Full == s # <<>> /\ Len(s) % w = 0
Rect == [r \in 1..(Len(s) \div w) |-> SubSeq(s, (r - 1) * w + 1, r * w)]
Mask == [r \in DOMAIN Rect |-> [x \in 1..w |-> Rect[r][x] = 1]]
Img == [r \in DOMAIN Rect |-> [x \in 1..w |-> r * 10 + x]]
Next == \/ /\ y = 0 /\ Len(s) < Cap /\ \E v \in Vals : s' = Append(s, v)
           /\ UNCHANGED <<mode, w, c, y>>
        \/ /\ mode = "mask" /\ Full /\ y < Len(Rect)
           /\ c' = CompressStep(c, Img[y + 1], Mask[y + 1]) /\ y' = y + 1 /\ UNCHANGED <<mode, w, s>>
Spec == Init /\ [][Next]_vars
Done == mode = "mask" /\ y > 0 /\ y = Len(Rect)
Widths == {k \in 1..w : \E r \in DOMAIN Rect : Len(SelectSeq(Rect[r], LAMBDA v : v = 0)) = k}
MaskOk == Done =>
  LET L == Trim(c) nonempty == {r \in DOMAIN Rect : \E x \in 1..w : ~Mask[r][x]} IN
  /\ L = Lines(Img, Mask)
  /\ Len(L) = Cardinality(nonempty)
  /\ L # <<>> => \A k \in DOMAIN L : /\ Len(L[k]) = CHOOSE n \in Widths : \A v \in Widths : n <= v
                                     /\ \A j \in 2..Len(L[k]) : L[k][j] > L[k][j - 1] /\ L[k][j] \div 10 = L[k][1] \div 10
  /\ \A k \in 2..Len(L) : L[k][1] \div 10 > L[k - 1][1] \div 10
  /\ ((\A r \in DOMAIN Mask : \A x \in 1..w : ~Mask[r][x]) => L = Img)
Tiny == RPow(10, -10)
Small(a) == RLe(RAbs(a), Tiny)
Total(P, n) == \* both halves of the spectrum
  RSum([k \in 1..n |-> IF k <= NFreq(n) THEN P[k] ELSE P[n - k + 2]])
ImgOk == (mode = "img" /\ Full) =>
  LET P == Power(Rect, 1) z == Centred(Rect) turned == Power(Turned(Rect), 1) IN
  /\ Len(P) = NFreq(w)
  /\ \A k \in DOMAIN P : RLe(RNeg(Tiny), P[k])
  /\ RClose(Total(P, w), RDiv(RSumSq(z), Len(Rect)), Tiny, Tiny)                \* Parseval
  /\ (\A k \in DOMAIN s : s[k] = s[1]) => \A k \in DOMAIN P : Small(P[k])        \* constant
  /\ (Len(Rect) = 1) => Small(P[1])                                             \* the mean is removed
  /\ (\A r \in DOMAIN Rect : \A x \in 2..w : Rect[r][x] = Rect[r][1]) => \A k \in DOMAIN P : k > 1 => Small(P[k])
  /\ \A k \in DOMAIN P : RClose(Power([r \in DOMAIN Rect |-> RVShift(RVScale(Rect[r], 3), 5)], 3)[k], P[k], Tiny, Tiny)
  /\ Turned(Turned(Rect)) = Rect /\ Len(turned) = NFreq(Len(Rect))
  /\ w % 2 = 0 => REq(Freq(NFreq(w) - 1, w), RDiv(1, 2))
Emit == IF Done \/ (mode = "img" /\ Full) THEN PrintT("SCN " \o ToJson([mode |-> mode, rows |-> Rect])) ELSE TRUE
Inv == MaskOk /\ ImgOk /\ Emit
=============================================================================
