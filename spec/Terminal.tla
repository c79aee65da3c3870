------------------------------ MODULE Terminal ------------------------------
(***************************************************************************)
(* An ANSI terminal: the cumulative interpretation of SGR parameters, and  *)
(* a byte-level parser in the manner of a VT500 (ESC always starts over).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles, SequencesExt

\* bold and faint are independent attributes; odd is set by anything this terminal cannot show
TermReset == [f |-> "default", b |-> "default", bold |-> FALSE, faint |-> FALSE, odd |-> FALSE]
Terms == [f : Colors, b : Colors, bold : BOOLEAN, faint : BOOLEAN, odd : BOOLEAN]

Sgr1(t, p) ==
    CASE p = 0 -> TermReset
      [] p = 1 -> [t EXCEPT !.bold = TRUE]
      [] p = 2 -> [t EXCEPT !.faint = TRUE]
      [] p = 22 -> [t EXCEPT !.bold = FALSE, !.faint = FALSE]
      [] p \in 30..37 -> [t EXCEPT !.f = BasicColors[p - 29]]
      [] p = 39 -> [t EXCEPT !.f = "default"]
      [] p \in 40..47 -> [t EXCEPT !.b = BasicColors[p - 39]]
      [] p = 49 -> [t EXCEPT !.b = "default"]
      [] p \in 90..97 -> [t EXCEPT !.f = BrightColors[p - 89]]
      [] p \in 100..107 -> [t EXCEPT !.b = BrightColors[p - 99]]
      [] OTHER -> [t EXCEPT !.odd = TRUE]

RECURSIVE Sgr(_, _)
Sgr(t, ps) == IF ps = <<>> THEN t ELSE Sgr(Sgr1(t, Head(ps)), Tail(ps))

\* the style in which the terminal shows a character; no style of the library if it cannot be one
Shown(t) == << t.f, t.b,
               IF t.odd THEN "odd"
               ELSE IF t.bold /\ t.faint THEN "bold+faint"
               ELSE IF t.bold THEN "bold" ELSE IF t.faint THEN "faint" ELSE "normal" >>

-----------------------------------------------------------------------------
(* Byte level.  mode: "ground", "esc", "csi"; ps: parameters so far; cells: runs shown. *)
VtInit == [term |-> TermReset, mode |-> "ground", ps |-> <<>>, n |-> 0, cells |-> <<>>]

Digits == "0123456789"
DigitVal(c) == CHOOSE d \in 0..9 : SubSeq(Digits, d + 1, d + 1) = c
IsDigit(c) == \E d \in 1..10 : SubSeq(Digits, d, d) = c
\* The harness writes the byte ESC as "~" (and keeps "~" out of texts): TLA+ has no escape for it.
Esc == "~"

VtByte(v, c) ==
    IF c = Esc THEN [v EXCEPT !.mode = "esc", !.ps = <<>>, !.n = 0]
    ELSE CASE v.mode = "ground" -> [v EXCEPT !.cells = AddRun(@, c, Shown(v.term))]
           [] v.mode = "esc" -> IF c = "[" THEN [v EXCEPT !.mode = "csi"]
                                ELSE [v EXCEPT !.mode = "ground", !.term.odd = TRUE]
           [] v.mode = "csi" ->
                IF IsDigit(c) THEN [v EXCEPT !.n = @ * 10 + DigitVal(c)]
                ELSE IF c = ";" THEN [v EXCEPT !.ps = Append(@, v.n), !.n = 0]
                ELSE IF c = "m" THEN [v EXCEPT !.mode = "ground", !.term = Sgr(@, Append(v.ps, v.n)),
                                               !.ps = <<>>, !.n = 0]
                ELSE [v EXCEPT !.mode = "ground", !.term.odd = TRUE]
\* One byte after the other.  What is to be shown is added a run at a time: from is where the run begins.
VtBytes(v, s) ==
    LET Show(w, from, to) == [w EXCEPT !.cells = AddRun(@, SubSeq(s, from, to), Shown(w.term))]
        Step(a, i) == LET b == SubSeq(s, i, i)
                      IN IF a.v.mode # "ground" THEN [v |-> VtByte(a.v, b), from |-> i + 1]
                         ELSE IF b = Esc THEN [v |-> VtByte(Show(a.v, a.from, i - 1), b), from |-> i + 1]
                         ELSE a
        end == FoldLeft(Step, [v |-> v, from |-> 1], [i \in 1..Len(s) |-> i])
    IN IF end.v.mode = "ground" THEN Show(end.v, end.from, Len(s)) ELSE end.v
=============================================================================
