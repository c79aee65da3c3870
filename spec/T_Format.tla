------------------------------ MODULE T_Format ------------------------------
(***************************************************************************)
(* Trace specification of format macro invocations.  A line of the log is  *)
(* an invocation, whether it was accepted by the compiler, and if so what  *)
(* happened when it was run: evaluations of the argument expressions,      *)
(* calls of formatting traits, and output in between.                      *)
(*                                                                         *)
(* FormatString.tla gives the meaning: a sequence of actions which the run *)
(* has to perform.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Probes, Writers, IOUtils

CONSTANT Gates
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, todo, o, verdict
vars == <<tr, l, todo, o, verdict>>

Ev == Log[tr].ev
Be == Log[tr].be
\* the gate "meaning" checks everything, of what could have been rejected
G(c) == c \in Gates \/ (verdict = "maybe" /\ "meaning" \in Gates)

-----------------------------------------------------------------------------
RECURSIVE Texts(_)
\* the leading texts of a list of actions, as runs, and what follows them
Texts(as) == IF as = <<>> \/ Head(as).k # "text" THEN [runs |-> <<>>, rest |-> as]
             ELSE LET r == Texts(Tail(as)) IN [runs |-> << <<Head(as).t, Head(as).s>> >> \o r.runs, rest |-> r.rest]

-----------------------------------------------------------------------------
\* An invocation is a string literal (or what expands to one) and arguments, each after a comma, and perhaps one
\* more comma.  syntax says what is wrong with that: "suffix" (the literal has one), "commas", "tokens" (more of them).
Inv == LET c == Log[tr] IN
       IF c.syntax # "" THEN [ok |-> "no", pieces |-> <<>>]
       ELSE Invocation(IF c.nl THEN c.fmt \o "\n" ELSE c.fmt, c.args, Rng(c.scope))

\* the params that a standard formatter shows
SameParams(p, q) == /\ p.fill = q.fill /\ p.align = q.align /\ p.sign = q.sign /\ p.alt = q.alt
                    /\ p.zero = q.zero /\ p.width = q.width /\ p.prec = q.prec

OutOk(n, runs) ==
    /\ G("text") => TextOf(n.runs) = TextOf(runs) /\ ~n.bad
    /\ G("style") /\ Be # "plain" /\ TextOf(n.runs) = TextOf(runs) => Canon(n.runs) = Canon(runs)

Init == tr \in 1..Len(Log) /\ l = 0 /\ todo = <<>> /\ o = RInit /\ verdict = "none"

\* acceptance
Judge ==
    /\ l = 0
    /\ LET inv == Inv
           c == Log[tr]
       IN /\ (G("accept") /\ inv.ok = "yes" => c.built = "yes") = TRUE
          /\ (G("reject") /\ inv.ok = "no" => c.built = "no") = TRUE
          /\ verdict' = IF c.built = "no" THEN "no" ELSE inv.ok
          /\ todo' = IF inv.ok \in {"yes", "maybe"} THEN Evals(c.args) \o Acts(inv.pieces, c.base) \o (IF c.times = 2 THEN Acts(inv.pieces, c.base) ELSE <<>>) ELSE <<>>
    /\ l' = 1 /\ UNCHANGED <<tr, o>>

Run ==
    /\ l >= 1 /\ l <= Len(Ev) /\ verdict \in {"yes", "maybe"}
    /\ LET e == Ev[l]
           x == Texts(todo)
           n == Read(Be, o, e.out)
       IN /\ (e.o \in {"eval", "call", "end"}) = TRUE
          /\ (IF e.o = "end" THEN /\ e.res = "ok" /\ x.rest = <<>>
                                   \* (-1: not measured)
                                   /\ G("alloc") => e.allocs <= 0
              ELSE /\ x.rest # <<>>
                   /\ LET y == Head(x.rest) IN
                      /\ G("order") => y.k = e.o /\ y.a = e.a
                      /\ e.o = "call" => /\ G("trait") => y.trait = e.trait
                                         /\ G("params") /\ e.trait # "Stylish" => SameParams(e.p, y.p)) = TRUE
          /\ OutOk(n, x.runs) = TRUE
          /\ todo' = IF x.rest = <<>> THEN <<>> ELSE Tail(x.rest)
          /\ o' = [n EXCEPT !.runs = <<>>]
    /\ l' = l + 1 /\ UNCHANGED <<tr, verdict>>

Done ==
    /\ \/ l >= 1 /\ verdict \notin {"yes", "maybe"}
       \/ l >= 1 /\ verdict \in {"yes", "maybe"} /\ l > Len(Ev)
    /\ UNCHANGED vars

Next == Judge \/ Run \/ Done

Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
