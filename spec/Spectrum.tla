------------------------------ MODULE Spectrum ------------------------------
(* The spectrogram of an image of numbers: img, rows of numbers; mask, rows *)
(* of booleans (TRUE: not valid) or <<>>.                                   *)
EXTENDS Rat, SequencesExt

Turned(img) == [x \in 1..Len(img[1]) |-> [y \in 1..Len(img) |-> img[y][x]]]
TurnedMask(mask) == IF mask = <<>> THEN <<>> ELSE Turned(mask)

(* line by line: the valid pixels, if there are any                         *)
ValidOf(line, m) ==
  LET k == SelectSeq([j \in DOMAIN line |-> j], LAMBDA j : ~m[j]) IN [j \in DOMAIN k |-> line[k[j]]]
CompressInit == [lines |-> <<>>, cols |-> 0]
CompressStep(c, line, m) ==
  LET v == ValidOf(line, m) IN
  IF v = <<>> THEN c
  ELSE [lines |-> Append(c.lines, v), cols |-> IF c.lines = <<>> \/ Len(v) < c.cols THEN Len(v) ELSE c.cols]
Trim(c) == [k \in DOMAIN c.lines |-> SubSeq(c.lines[k], 1, c.cols)]
RECURSIVE CompressFrom(_, _, _, _)
CompressFrom(c, img, mask, y) ==
  IF y > Len(img) THEN c ELSE CompressFrom(CompressStep(c, img[y], mask[y]), img, mask, y + 1)
Lines(img, mask) == IF mask = <<>> THEN img ELSE Trim(CompressFrom(CompressInit, img, mask, 1))

NFreq(n) == (n \div 2) + 1
Freq(k, n) == RDiv(k, n)                            \* periods per pixel

Centred(lines) == LET m == RMean(lines) IN [y \in DOMAIN lines |-> RVShift(lines[y], RNeg(m))]
Cosines(k, n) == [x \in 1..n |-> RCosTurn((k * (x - 1)) % n, n)]
Sines(k, n) == [x \in 1..n |-> RSinTurn((k * (x - 1)) % n, n)]
PowerOf(line, c, s) == LET a == RDot(line, c) b == RDot(line, s) IN RDiv(RAdd(RMul(a, a), RMul(b, b)), Len(line))
(* the k-th value of the spectrum of n summed images, k from 0              *)
PowerAt(centred, k, n) ==
  LET N == Len(centred[1]) c == Cosines(k, N) s == Sines(k, N) IN
  RDiv(RMean([y \in DOMAIN centred |-> PowerOf(centred[y], c, s)]), RMul(n, n))
Power(lines, n) == LET z == Centred(lines) IN [k \in 1..NFreq(Len(lines[1])) |-> PowerAt(z, k - 1, n)]
=============================================================================
