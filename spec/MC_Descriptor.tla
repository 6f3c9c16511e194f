--------------------------- MODULE MC_Descriptor ---------------------------
(* All descriptor files of up to N blocks over a small alphabet of blocks:  *)
(* the laws of the parser machine, and the files as scenarios to replay.    *)
EXTENDS Descriptor, TLC, Json
CONSTANT N

Heads == << "b 1 2", "b 1,0 2.0", "b 2 2", "b 1 0", "d 1", "d  2", "b x 2", "b 1", "d", "b 1 2 3" >>
Singles == << <<"v 1">>, <<"v 2 x">>, <<"v">>, <<"n 8 4 3">>, <<"n 8 4">>, <<"n 8 x 3">>,
              <<"# b 3 3">>, <<"">>, <<"i">> >>
Images(k) == [j \in 1..k |-> <<"i a", "i b\\c", "i ./d/../a">>[j]]
Blocks == Singles \o
          [h \in 1..(4 * Len(Heads)) |->
             <<Heads[((h - 1) \div 4) + 1]>> \o Images((h - 1) % 4)]

VARIABLES file,    \* the blocks written so far
          ps       \* the parser machine after them
vars == <<file, ps>>

Text1(ln) == Codes(ln)
Significant(ws) == SelectSeq(ws, LAMBDA w : w # <<>> /\ w[1][1] # 35)
Toks(blk) == Significant([k \in DOMAIN blk |-> Words(Text1(blk[k]))])

Init == file = <<>> /\ ps = PInit
Next == /\ Len(file) < N
        /\ \E b \in DOMAIN Blocks :
             /\ file' = Append(file, b)
             /\ ps' = FoldLeft(Step, ps, Toks(Blocks[b]))
Spec == Init /\ [][Next]_vars

AllLines(f) == FlattenSeq([k \in DOMAIN f |-> Blocks[f[k]]])
Render(f, eol, pre, sep) ==
  FlattenSeq([k \in DOMAIN AllLines(f) |->
     LET w == Words(Text1(AllLines(f)[k]))
         body == IF w = <<>> \/ w[1][1] = 35 THEN Text1(AllLines(f)[k])
                 ELSE FlattenSeq([j \in DOMAIN w |-> IF j = 1 THEN w[j] ELSE sep \o w[j]])
     IN  pre \o body \o eol])
R == Close(ps)
Accepted == R.bad = {} /\ ~R.loose
Emit == PrintT("SCN " \o ToJson([lines |-> AllLines(file)]))

(* the machine on tokens is the parser on the text, however it is laid out *)
LayoutIrrelevant ==
  /\ ParseText(Render(file, <<10>>, <<>>, <<32>>)) = R
  /\ ParseText(Render(file, <<13, 10>>, <<32>>, <<9, 32>>)) = R
  /\ ParseText(Render(file, <<13>>, <<9>>, <<32>>)) = R
  /\ ParseText(Render(file, <<10, 35, 98, 10, 10>>, <<>>, <<32>>)) = R
(* an accepted file has one entry per series and all of their images *)
NothingLost ==
  LET ws == FlattenSeq([k \in DOMAIN file |-> Toks(Blocks[file[k]])])
      n(c) == Len(SelectSeq(ws, LAMBDA w : w[1] = c))
  IN  Accepted =>
        /\ Cardinality(Entries(R, <<47>>)) = n(<<98>>) + n(<<100>>)
        /\ FoldLeft(LAMBDA a, p : a + Len(p.files), 0, R.pts) = n(<<105>>)
        /\ \A e \in Entries(R, <<47>>), f \in Entries(R, <<47>>) :
             (<<e[1], e[2], e[3]>> = <<f[1], f[2], f[3]>>) => e = f
(* the order of the blocks does not matter *)
OrderIrrelevant ==
  LET q == ParseText(Render(Reverse(file), <<10>>, <<>>, <<32>>)) IN
  Accepted => /\ q.bad = {}
              /\ Entries(q, <<47>>) = Entries(R, <<47>>)
              /\ q.fmt = R.fmt
(* what is malformed stays malformed *)
Hopeless == [][ps.bad # {} => ps'.bad # {}]_vars
Inv == LayoutIrrelevant /\ NothingLost /\ OrderIrrelevant /\ Emit
=============================================================================
