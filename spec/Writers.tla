------------------------------- MODULE Writers -------------------------------
(***************************************************************************)
(* The output side.  Enc* are reference encoders (the behaviour of an ideal *)
(* writer); Read* are readers, which take what a writer really produced,   *)
(* as tokens, and say what a user sees, and where markup was not needed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles, Terminal, Html

-----------------------------------------------------------------------------
(* Reference encoders: tokens for text t in style s after style c. *)
Code(seq, base, c) == base + (CHOOSE i \in DOMAIN seq : seq[i] = c) - 1
FgCode(c) == IF c = "default" THEN 39 ELSE IF c \in Rng(BasicColors) THEN Code(BasicColors, 30, c) ELSE Code(BrightColors, 90, c)
BgCode(c) == FgCode(c) + 10
IntCodes(old, new) ==
    IF new = "normal" THEN <<22>>
    ELSE (IF old = "normal" THEN <<>> ELSE <<22>>) \o <<IF new = "bold" THEN 1 ELSE 2>>
SgrParams(c, s) ==
    LET d == DiffFrom(s, c) IN
    (IF d[1] = "none" THEN <<>> ELSE <<FgCode(d[1])>>) \o
    (IF d[2] = "none" THEN <<>> ELSE <<BgCode(d[2])>>) \o
    (IF d[3] = "none" THEN <<>> ELSE IntCodes(c[3], d[3]))
Txt(t) == [k |-> "txt", t |-> t]
EncAnsi(c, t, s) ==
    IF t = "" THEN <<>>
    ELSE (IF c = s THEN <<>>
          ELSE IF s = DefaultStyle THEN << [k |-> "sgr", p |-> <<0>>] >>
          ELSE << [k |-> "sgr", p |-> SgrParams(c, s)] >>) \o <<Txt(t)>>
EndAnsi(c) == IF c = DefaultStyle THEN <<>> ELSE << [k |-> "sgr", p |-> <<0>>] >>

Decls(s) ==
    LET one(p, v, i) == IF s[i] = DefaultStyle[i] THEN <<>> ELSE << <<p, v>> >>
    IN (IF s[1] = "default" THEN <<>> ELSE << <<"color", CHOOSE v \in CssColors[s[1]] : TRUE>> >>) \o
       (IF s[2] = "default" THEN <<>> ELSE << <<"background-color", CHOOSE v \in CssColors[s[2]] : TRUE>> >>) \o
       (IF s[3] = "normal" THEN <<>> ELSE << <<"font-weight", CHOOSE v \in CssWeights[s[3]] : TRUE>> >>)
EncHtml(c, t, s) ==
    IF t = "" THEN <<>>
    ELSE (IF c = s THEN <<>>
          ELSE (IF c = DefaultStyle THEN <<>> ELSE << [k |-> "close"] >>) \o
               (IF s = DefaultStyle THEN <<>> ELSE << [k |-> "open", d |-> Decls(s)] >>)) \o <<Txt(t)>>
EndHtml(c) == IF c = DefaultStyle THEN <<>> ELSE << [k |-> "close"] >>

-----------------------------------------------------------------------------
(* Readers.  State:                                                                            *)
(*   term: the terminal (ANSI);  span: <<>> or the style the open span declares (HTML)         *)
(*   last: style of the last text;  mark: markup since the last text                           *)
(*   marked: any markup so far;  extra: markup between texts of one style; bad: not understood *)
RInit == [term |-> TermReset, span |-> <<>>, last |-> DefaultStyle, mark |-> FALSE,
          marked |-> FALSE, extra |-> FALSE, bad |-> FALSE, runs |-> <<>>]

ReadText(o, t, s) ==
    IF t = "" THEN o
    ELSE [o EXCEPT !.runs = AddRun(@, t, s), !.extra = @ \/ (o.mark /\ o.last = s), !.last = s, !.mark = FALSE]
Marked(o) == [o EXCEPT !.mark = TRUE, !.marked = TRUE]

ReadTok(be, o, k) ==
    CASE k.k = "bad" -> [o EXCEPT !.bad = TRUE]
      [] k.k = "chk" -> ReadText(o, k.t, k.s)
      [] k.k = "sgr" -> Marked([o EXCEPT !.term = Sgr(@, k.p)])
      [] k.k = "open" -> Marked([o EXCEPT !.span = DeclStyle(k.d), !.bad = @ \/ o.span # <<>>])
      [] k.k = "close" -> Marked([o EXCEPT !.span = <<>>, !.bad = @ \/ o.span = <<>>])
      [] k.k = "txt" -> ReadText(o, k.t, CASE be \in {"ansi", "ioansi"} -> Shown(o.term)
                                           [] be = "html" -> IF o.span = <<>> THEN DefaultStyle ELSE o.span
                                           [] OTHER -> DefaultStyle)
\* a span that declares nothing is not allowed around text in the default style
ReadAll(be, o, ks) == FoldLeft(LAMBDA a, k : ReadTok(be, a, k), o, ks)
Read(be, o, ks) == ReadAll(be, [o EXCEPT !.runs = <<>>, !.extra = FALSE], ks)

\* nothing is left switched on
Clean(o) == o.term = TermReset /\ o.span = <<>>
=============================================================================
