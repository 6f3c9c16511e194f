------------------------------- MODULE Reduce -------------------------------
(* Reduction of a stack of images, one image at a time.  An image is a      *)
(* sequence of rows of integers.                                            *)
EXTENDS Rat, SequencesExt

RInit == [L |-> 0, sum |-> <<>>, sq |-> <<>>, first |-> <<>>, last |-> <<>>]

RStep(r, img) ==
  IF r.L = 0
  THEN [L |-> 1, sum |-> RVScale(img, 1), sq |-> RVMul(img, img), first |-> img, last |-> img]
  ELSE [r EXCEPT !.L = @ + 1, !.sum = RVAdd(@, img), !.sq = RVAdd(@, RVMul(img, img)), !.last = img]

Stack(imgs) == FoldLeft(RStep, RInit, imgs)

(* pseudo-variance of every pixel: L (L sum x^2 - (sum x)^2), an integer    *)
PVar(r) == RVScale(RVSub(RVScale(r.sq, r.L), RVMul(r.sum, r.sum)), r.L)
DMean(r) == RSub(RMean(r.last), RMean(r.first))
(* largest magnitude in the first and last image, for tolerances            *)
Scale(r) == RMax(RMaxS(RVAbs(r.first)), RMaxS(RVAbs(r.last)))

Rows(img) == Len(img)
Cols(img) == Len(img[1])
Shape(img) == <<Rows(img), Cols(img)>>
=============================================================================
