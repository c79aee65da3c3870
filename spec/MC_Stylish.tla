----------------------------- MODULE MC_Stylish -----------------------------
(***************************************************************************)
(* Explores Stylish.tla with ideal ANSI and HTML writers attached, checks  *)
(* the properties on every behaviour up to MaxOps operations, and prints   *)
(* every finished behaviour, to be replayed into the code.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Stylish, Trees, Writers

CONSTANTS MaxOps,      \* bound on the number of operations
          Alphabet,    \* name of the set of operations to explore: "core", "nest", "err", "unwind"
          Emit         \* whether to print finished behaviours

Red == <<"red", "default", "normal">>
RedBold == <<"red", "default", "bold">>
BlueOnWhiteFaint == <<"blue", "white", "faint">>
Fg(c) == [k |-> "fg", c |-> c]
Inten(i) == [k |-> "int", i |-> i]

Core == { [o |-> "w", t |-> "a", s |-> Red], [o |-> "w", t |-> "b", s |-> RedBold], [o |-> "w", t |-> "c", s |-> DefaultStyle],
          [o |-> "w", t |-> "d", s |-> BlueOnWhiteFaint], [o |-> "w", t |-> "", s |-> RedBold], [o |-> "w", t |-> "", s |-> DefaultStyle],
          [o |-> "c", t |-> "&", s |-> Red], [o |-> "clone"], [o |-> "clone", m |-> 1], [o |-> "fork"], [o |-> "finish"] }
Nest == { [o |-> "fmt", via |-> 0], [o |-> "fmt", via |-> 2],
          [o |-> "t", t |-> "x", m |-> 0], [o |-> "t", t |-> "", m |-> 1], [o |-> "sw", t |-> "y", s |-> RedBold, m |-> 0],
          [o |-> "with", r |-> Fg("red")], [o |-> "with", r |-> [k |-> "pair", a |-> Fg("default"), b |-> Inten("bold")]],
          [o |-> "attr", key |-> "normal", k |-> 1], [o |-> "attr", key |-> "fg=default", k |-> 0],
          [o |-> "attr", key |-> "fg=red,bold", k |-> 1],
          [o |-> "args", m |-> 0], [o |-> "str", m |-> 0], [o |-> "end"], [o |-> "built"], [o |-> "finish"] }
Errs == { [o |-> "fmt", via |-> 1], [o |-> "fmt", via |-> 2], [o |-> "t", t |-> "x", m |-> 0], [o |-> "with", r |-> Fg("red")],
          [o |-> "attr", key |-> "bold", k |-> 1], [o |-> "args", m |-> 1], [o |-> "str", m |-> 0],
          [o |-> "try"], [o |-> "fail"], [o |-> "end"], [o |-> "built"],
          [o |-> "w", t |-> "b", s |-> RedBold], [o |-> "finish"] }
Unwinding == { [o |-> "fmt", via |-> 1], [o |-> "fmt", via |-> 2], [o |-> "t", t |-> "x", m |-> 0], [o |-> "with", r |-> Fg("red")],
          [o |-> "attr", key |-> "bold", k |-> 1], [o |-> "str", m |-> 0], [o |-> "guard"],
          [o |-> "try"], [o |-> "boom"], [o |-> "fail"], [o |-> "caught"], [o |-> "end"], [o |-> "built"],
          [o |-> "w", t |-> "b", s |-> RedBold], [o |-> "finish"] }
Ops == CASE Alphabet = "core" -> Core [] Alphabet = "nest" -> Nest [] Alphabet = "err" -> Errs
         [] Alphabet = "unwind" -> Unwinding

VARIABLES m, hist, ansi, html, cur, plain
vars == <<m, hist, ansi, html, cur, plain>>

Init == m = SInit /\ hist = <<>> /\ ansi = RInit /\ html = RInit /\ cur = DefaultStyle /\ plain = ""

\* feeds runs to an ideal writer and its reader; gives [o, cur]
RECURSIVE Feed(_, _, _, _)
Feed(be, o, c, rs) ==
    IF rs = <<>> THEN [o |-> o, cur |-> c]
    ELSE LET t == rs[1][1]
             s == rs[1][2]
             toks == IF be = "ansi" THEN EncAnsi(c, t, s) ELSE EncHtml(c, t, s)
         IN Feed(be, ReadAll(be, o, toks), IF t = "" THEN c ELSE s, Tail(rs))

\* bounds: how many operations are needed to close what is open
Pending == Len(m.frames) + Len(m.accs)
Do(e) ==
    LET r == Step(m, e)
        a == Feed("ansi", ansi, cur, r.runs)
        h == Feed("html", html, cur, r.runs)
    IN /\ r.legal
       /\ Len(hist) + 1 + Len(r.m.frames) + Len(r.m.accs) <= MaxOps
       /\ m' = r.m
       /\ hist' = Append(hist, e)
       /\ plain' = plain \o TextOf(r.runs)
       /\ IF e.o = "finish"
          THEN /\ ansi' = ReadAll("ansi", a.o, EndAnsi(a.cur))
               /\ html' = ReadAll("html", h.o, EndHtml(h.cur))
          ELSE ansi' = a.o /\ html' = h.o
       /\ cur' = a.cur
Next == \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* C01: what readers of any backend see as text is what was delivered
TextPreserved == /\ TextOf(ansi.runs) = TextOf(m.content)
                 /\ TextOf(html.runs) = TextOf(m.content)
                 /\ plain = TextOf(m.content)
\* C02, C04: in exactly its style
StylesShown == /\ ansi.runs = m.content /\ html.runs = m.content /\ ~ansi.bad /\ ~html.bad
\* C03, C04: finishing leaves nothing switched on; nothing styled, nothing emitted
FinishClean == /\ m.done => Clean(ansi) /\ Clean(html)
               /\ (\A i \in DOMAIN m.content : m.content[i][2] = DefaultStyle) => ~ansi.marked /\ ~html.marked
\* C19
NothingExtra == ~ansi.extra /\ ~html.extra
\* C07, C08, C16, C17: the machine does what the expressions mean
MeansWhatItSays == (m.frames = <<>>) => m.content = Canon(DenTop(TreesOf(hist)))
\* C07: the style inside is the fold of the enclosing scopes' restylings
ScopeStyle(fr) == fr.k \in {"fmt", "str"} => fr.s = DefaultStyle
Scopes == \A i \in DOMAIN m.frames : ScopeStyle(m.frames[i])
\* C17: while an error is on its way, nothing can be written
Stuck == m.err => \A e \in Ops : e.o \notin {"end", "built"} => ~Step(m, e).legal
\* C21: while a panic is on its way, nothing can be done but catch it; caught, no scope is left that it went through
Unwound == /\ m.pan => \A e \in Ops : e.o # "caught" => ~Step(m, e).legal
           /\ (hist # <<>> /\ Last_(hist).o = "caught") => ~m.err /\ ~m.pan
           /\ Len(m.accs) = Len(SelectSeq(m.frames, LAMBDA f : f.building))

EmitDone == Emit /\ m.done => PrintT("SCN " \o ToJson(TreesOf(hist)))
=============================================================================
