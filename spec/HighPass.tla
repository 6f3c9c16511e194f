------------------------------ MODULE HighPass ------------------------------
(* The high-pass filter with a box of dim x dim.  img: rows of integers;    *)
(* mask: rows of booleans (TRUE: not valid), or <<>> for none.              *)
EXTENDS Rat, FiniteSets, SequencesExt

Ht(img) == Len(img)
Wd(img) == Len(img[1])
Half(dim) == dim \div 2
Valid(mask, y, x) == mask = <<>> \/ ~mask[y][x]
Inner(img, dim) == {p \in ((1 + Half(dim))..(Ht(img) - Half(dim))) \X ((1 + Half(dim))..(Wd(img) - Half(dim))) : TRUE}
Box(y, x, dim) == ((y - Half(dim))..(y + Half(dim))) \X ((x - Half(dim))..(x + Half(dim)))
BoxValid(mask, y, x, dim) == {p \in Box(y, x, dim) : Valid(mask, p[1], p[2])}
Centres(img, mask, dim) == {p \in Inner(img, dim) : Valid(mask, p[1], p[2])}
Sizes(img, mask, dim) == {Cardinality(BoxValid(mask, p[1], p[2], dim)) : p \in Centres(img, mask, dim)}
Rejected(img, mask, dim) == dim % 2 = 0 \/ (mask # <<>> /\ Cardinality(Sizes(img, mask, dim)) # 1)

Total(img, S) == LET q == SetToSeq(S) IN RSum([k \in DOMAIN q |-> img[q[k][1]][q[k][2]]])
At(img, mask, y, x, dim) ==
  LET B == BoxValid(mask, y, x, dim) IN RSub(RMul(Cardinality(B), img[y][x]), Total(img, B))
Factor(img, mask, dim) == IF mask = <<>> THEN dim * dim ELSE CHOOSE n \in Sizes(img, mask, dim) : TRUE
(* the valid pixels of the result, row by row                               *)
FilteredValid(img, mask, dim) ==
  LET d == Half(dim)
      row(y) == SelectSeq([k \in 1..(Wd(img) - 2 * d) |-> k + d], LAMBDA x : Valid(mask, y, x))
  IN FlattenSeq([k \in 1..(Ht(img) - 2 * d) |-> LET r == row(k + d) IN [j \in DOMAIN r |-> At(img, mask, k + d, r[j], dim)]])
ValidPixels(img, mask) ==
  FlattenSeq([y \in DOMAIN img |-> LET r == SelectSeq([k \in DOMAIN img[y] |-> k], LAMBDA x : Valid(mask, y, x)) IN [j \in DOMAIN r |-> img[y][r[j]]]])
=============================================================================
