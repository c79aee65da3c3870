------------------------------- MODULE Probes -------------------------------
(***************************************************************************)
(* What a format macro invocation does, when its arguments are the probes  *)
(* of the harness: evaluate them, and call formatting traits on them,      *)
(* which record how they were called and write text.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt, FormatString, StdFmt

(* What the pieces do *)
Text(t, s) == [k |-> "text", t |-> t, s |-> s, a |-> "", trait |-> "", p |-> Params0]
Call(a, tt, p) == [k |-> "call", t |-> "", s |-> DefaultStyle, a |-> a, trait |-> tt, p |-> p]
Eval(a) == [k |-> "eval", t |-> "", s |-> DefaultStyle, a |-> a, trait |-> "", p |-> Params0]

NameOf(r) == IF r.k = "arg" THEN "a" \o ToString(r.i) ELSE r.n

\* the probes of harness/src/fmtcase.rs
Hex(p) == CASE p.hex = "" -> "171" [] p.hex = "x" -> "ab" [] p.hex = "X" -> "AB"
Body(n, tt, p) ==
    CASE tt = "Display" -> Pad(n, p)
      [] tt = "Debug" -> n \o PadInt(FALSE, IF p.hex = "" THEN "" ELSE "0x", Hex(p), p)
      [] OTHER -> n \o PadInt(FALSE, "0t", "42", p)

Acts(pieces, base) ==
    FoldLeft(LAMBDA acc, p :
        acc \o
        (IF p.k = "lit" THEN << Text(p.t, base) >>
         ELSE LET n == NameOf(p.ref)
                  s == ApplyDiff(p.d, base)
              IN IF p.trait = "Stylish"
                 THEN << Call(n, "Stylish", Params0), Text(n, s), Call(n, "Display", Params0), Text(n, s), Text("/", s) >>
                 ELSE << Call(n, p.trait, p.p), Text(Body(n, p.trait, p.p), s) >>),
        <<>>, pieces)

\* every argument is evaluated first, in order
Evals(args) == [i \in DOMAIN args |-> Eval("a" \o ToString(i))]

\* the styled text of it
RunsOf(acts) == LET t == SelectSeq(acts, LAMBDA a : a.k = "text") IN [i \in DOMAIN t |-> <<t[i].t, t[i].s>>]
=============================================================================
