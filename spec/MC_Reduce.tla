----------------------------- MODULE MC_Reduce -----------------------------
(* All stacks of up to N one-row images of two pixels over V.               *)
EXTENDS Reduce, FiniteSets, TLC, Json
CONSTANTS N, V
VARIABLES imgs, r
vars == <<imgs, r>>
Imgs == {<<<<a, b>>>> : a \in V, b \in V}
Init == imgs = <<>> /\ r = RInit
Next == /\ Len(imgs) < N
        /\ \E i \in Imgs : imgs' = Append(imgs, i) /\ r' = RStep(r, i)
Spec == Init /\ [][Next]_vars

Px(k, s) == s[k][1]
\* sum over pairs of squared differences
RECURSIVE PairSq(_)
PairSq(s) == IF Len(s) < 2 THEN <<<<0, 0>>>>
             ELSE FoldLeft(LAMBDA a, x : RVAdd(a, RVMul(RVSub(x, s[1]), RVSub(x, s[1]))),
                           PairSq(Tail(s)), Tail(s))
PairForm == imgs # <<>> => REq(RSum(RVSub(PVar(r), RVScale(PairSq(imgs), Len(imgs)))), 0)
            /\ RCloseSeq(PVar(r), RVScale(PairSq(imgs), Len(imgs)), 0, 0)
OrderFree == imgs # <<>> =>
   /\ Stack(Reverse(imgs)).sum = r.sum /\ PVar(Stack(Reverse(imgs))) = PVar(r)
   /\ RSame(DMean(Stack(Reverse(imgs))), RNeg(DMean(r)))
Nonneg == imgs # <<>> => /\ RLe(0, RMinS(PVar(r)))
                         /\ (REq(RMaxS(PVar(r)), 0) <=> \A k \in DOMAIN imgs : imgs[k] = imgs[1])
ShiftFree == imgs # <<>> => PVar(Stack([k \in DOMAIN imgs |-> RVShift(imgs[k], 7)])) = PVar(r)
Telescope == imgs # <<>> =>
   RSame(DMean(r), FoldLeft(LAMBDA a, k : RAdd(a, RSub(RMean(imgs[k]), RMean(imgs[k - 1]))), 0,
                            [k \in 1..(Len(imgs) - 1) |-> k + 1]))
Emit == Len(imgs) > 0 => PrintT("SCN " \o ToJson([imgs |-> imgs]))
Inv == PairForm /\ OrderFree /\ Nonneg /\ ShiftFree /\ Telescope /\ Emit
=============================================================================
