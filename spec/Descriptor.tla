----------------------------- MODULE Descriptor -----------------------------
(* The EMVA 1288 descriptor file: text -> lines -> tokens, and the parser   *)
(* as a state machine that consumes one token line at a time.               *)
(*   v <version>      n <bits> <width> <height>                             *)
(*   b <exposure> <photons>   d <exposure>      followed by its images      *)
(*   i <file>                                                               *)
(* Text is a sequence of character codes.                                   *)
EXTENDS Rat, SequencesExt, FiniteSets

LOCAL Blank == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32}
LOCAL NL == 10
LOCAL CR == 13
LOCAL Hash == 35
LOCAL Comma == 44
LOCAL Dot == 46
LOCAL Slash == 47
LOCAL BSlash == 92

------------------------------------------------------------------ (* text *)
(* All the lines of a text; LF, CR and CR LF end a line.                    *)
TextLines(text) ==
  LET step(a, c) ==
        IF c = NL /\ a.cr THEN [a EXCEPT !.cr = FALSE]
        ELSE IF c \in {NL, CR}
             THEN [done |-> Append(a.done, a.cur), cur |-> <<>>, cr |-> c = CR]
             ELSE [done |-> a.done, cur |-> Append(a.cur, c), cr |-> FALSE]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>, cr |-> FALSE], text)
  IN  IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

(* The white-space separated words of a line.                               *)
Words(line) ==
  LET step(a, c) ==
        IF c \in Blank
        THEN IF a.cur = <<>> THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> <<>>]
        ELSE [a EXCEPT !.cur = Append(a.cur, c)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], line)
  IN  IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

(* Significant lines, as word sequences: blank lines and comments dropped.  *)
TokenLines(text) ==
  SelectSeq([k \in 1..Len(TextLines(text)) |-> Words(TextLines(text)[k])],
            LAMBDA w : w # <<>> /\ w[1][1] # Hash)

--------------------------------------------------------------- (* numbers *)
(* A decimal number of the file (a comma may stand for the decimal point),  *)
(* as the double that represents it; "nan" if the word is not a number.     *)
FileNumber(w) == RDbl(RDecimal([k \in 1..Len(w) |-> IF w[k] = Comma THEN Dot ELSE w[k]]))

LOCAL Digits == 48..57
IsInteger(w) ==
  LET d == IF w[1] \in {43, 45} THEN Tail(w) ELSE w
  IN  Len(d) > 0 /\ \A k \in DOMAIN d : d[k] \in Digits
FileInteger(w) == RDecimal(w)

----------------------------------------------------------------- (* paths *)
(* The normalised segments of a path written with / or \ .                  *)
Segments(w) ==
  LET step(a, c) ==
        IF c \in {Slash, BSlash}
        THEN IF a.cur = <<>> THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> <<>>]
        ELSE [a EXCEPT !.cur = Append(a.cur, c)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], w)
      segs == IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
      up(a, s) == IF s = <<Dot>> THEN a
                  ELSE IF s = <<Dot, Dot>> THEN (IF a = <<>> THEN a ELSE Front(a))
                  ELSE Append(a, s)
  IN  FoldLeft(up, <<>>, segs)

(* The absolute place of an image named w in a file whose images are        *)
(* relative to the absolute folder base.                                    *)
Place(base, w) ==
  IF w[1] = Slash THEN Segments(w) ELSE Segments(base \o <<Slash>> \o w)

---------------------------------------------------- (* the parser machine *)
(* ver, fmt: what has been read; pts: the completed series, in file order;  *)
(* cur: the open series, <<>> or <<exposure, photons>>; files: its images;  *)
(* bad: the ways in which the text read so far is malformed; loose: it has  *)
(* lines about which nothing is promised (unknown commands, images outside  *)
(* of a series).                                                            *)
PInit == [ver |-> <<>>, fmt |-> <<>>, pts |-> <<>>, cur |-> <<>>, files |-> <<>>,
          bad |-> {}, loose |-> FALSE]

Kind(files) == IF Len(files) = 2 THEN "temporal" ELSE "spatial"

LOCAL Flaw(s, f) == [s EXCEPT !.bad = @ \cup {f}]

(* The open series ends.                                                    *)
Close(s) ==
  IF s.cur = <<>> THEN s
  ELSE LET p == [kind |-> Kind(s.files), exp |-> s.cur[1], ph |-> s.cur[2], files |-> s.files]
           t == [s EXCEPT !.cur = <<>>, !.files = <<>>]
       IN  IF Len(s.files) < 2 THEN Flaw(t, "SyntaxError")
           ELSE IF \E k \in DOMAIN s.pts : /\ s.pts[k].kind = p.kind
                                           /\ s.pts[k].exp = p.exp
                                           /\ s.pts[k].ph = p.ph
                THEN Flaw(t, "SyntaxError")
                ELSE [t EXCEPT !.pts = Append(@, p)]

LOCAL Open(s, exp, ph) ==
  IF RIsNan(exp) \/ RIsNan(ph) THEN Flaw([s EXCEPT !.cur = <<"0", "0">>, !.files = <<<<>>, <<>>>>], "ValueError")
  ELSE [s EXCEPT !.cur = <<RNum(exp), RNum(ph)>>, !.files = <<>>]

LOCAL CmdV == <<118>>
LOCAL CmdN == <<110>>
LOCAL CmdB == <<98>>
LOCAL CmdD == <<100>>
LOCAL CmdI == <<105>>

(* One significant line.                                                    *)
Step(s0, w) ==
  IF Len(w) < 2 THEN Flaw(Close(s0), "SyntaxError")
  ELSE IF w[1] = CmdI
  THEN IF s0.cur = <<>> THEN [s0 EXCEPT !.loose = @ \/ s0.bad = {}]
       ELSE IF Len(w) # 2 THEN Flaw(s0, "SyntaxError")
       ELSE [s0 EXCEPT !.files = Append(@, w[2])]
  ELSE LET s == Close(s0) IN
    CASE w[1] = CmdV -> [s EXCEPT !.ver = w[2]]
      [] w[1] = CmdN ->
           IF Len(w) # 4 \/ s.fmt # <<>> THEN Flaw(s, "SyntaxError")
           ELSE IF \E k \in 2..4 : ~IsInteger(w[k]) THEN Flaw([s EXCEPT !.fmt = <<0, 0, 0>>], "ValueError")
           ELSE [s EXCEPT !.fmt = [k \in 1..3 |-> FileInteger(w[k + 1])]]
      [] w[1] = CmdB ->
           IF Len(w) # 3 THEN Flaw(s, "SyntaxError")
           ELSE Open(s, FileNumber(w[2]), FileNumber(w[3]))
      [] w[1] = CmdD ->
           IF Len(w) # 2 THEN Flaw(s, "SyntaxError")
           ELSE Open(s, FileNumber(w[2]), "0")
      [] OTHER -> [s EXCEPT !.loose = TRUE]

Parse(tokenlines) == Close(FoldLeft(Step, PInit, tokenlines))
ParseText(text) == Parse(TokenLines(text))

(* The images dictionary a parsed text stands for, as a set of entries.     *)
Entries(s, base) ==
  { <<s.pts[k].kind, s.pts[k].exp, s.pts[k].ph,
      [j \in DOMAIN s.pts[k].files |-> Place(base, s.pts[k].files[j])]>> : k \in DOMAIN s.pts }
=============================================================================
