------------------------------ MODULE T_Entry ------------------------------
(***************************************************************************)
(* Trace specification of entry points.  A line of the log is some         *)
(* formatted data (segments: bodies of operations; or a format macro       *)
(* invocation), and what it became through every entry point of every      *)
(* backend.                                                                *)
(*                                                                         *)
(* The denotation of Stylish.tla says which styled text it has to be; and  *)
(* whatever produced the same styled text for the same kind of output      *)
(* before has to have produced the very same characters.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Stylish, Probes, Writers, IOUtils

CONSTANT Gates
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, dens, seen
vars == <<tr, l, dens, seen>>

Ev == Log[tr].ev
G(c) == c \in Gates
Family(be) == CASE be = "ioansi" -> "ansi" [] be = "ioplain" -> "plain" [] OTHER -> be

\* [rs, err]: of a list of segments, 0 being the end of a line
RECURSIVE DenOf(_)
DenOf(is) ==
    IF is = <<>> THEN [rs |-> <<>>, err |-> FALSE]
    ELSE LET h == IF Head(is) = 0 THEN [rs |-> << <<"\n", DefaultStyle>> >>, err |-> FALSE] ELSE dens[Head(is)]
         IN IF h.err THEN h
            ELSE LET t == DenOf(Tail(is)) IN [rs |-> h.rs \o t.rs, err |-> t.err]

IsInv == "fmt" \in DOMAIN Log[tr]
Inv == LET c == Log[tr] IN Invocation(c.fmt, c.args, Rng(c.scope))
Judge == /\ G("accept") /\ Inv.ok = "yes" => Log[tr].built = "yes"
         /\ G("reject") /\ Inv.ok = "no" => Log[tr].built = "no"
Names(n) == [i \in 1..n |-> "a" \o ToString(i)]

Init == /\ tr \in 1..Len(Log) /\ l = 1 /\ seen = <<>>
        /\ dens = IF IsInv THEN << [rs |-> IF Inv.ok = "yes" THEN RunsOf(Acts(Inv.pieces, DefaultStyle)) ELSE <<>>, err |-> FALSE] >>
                  ELSE [i \in DOMAIN Log[tr].segs |-> LET d == DenAll(Log[tr].segs[i], DefaultStyle)
                                                            IN [rs |-> d.rs, err |-> d.st # "ok"]]

Same(e, key) == \A i \in DOMAIN seen : seen[i].f = Family(e.be) /\ seen[i].key = key => seen[i].raw = e.raw

Next ==
    \/ /\ l <= Len(Ev)
       /\ (l = 1 /\ IsInv => Judge) = TRUE
       /\ (IsInv => Inv.ok = "yes") = TRUE
       /\ LET e == Ev[l]
              d == DenOf(e.segs)
              key == Canon(d.rs)
              n == Read(e.be, RInit, e.out)
              f == Family(e.be)
          IN /\ (IF d.err THEN G("err") => e.res # "ok"
                 ELSE /\ G("order") /\ IsInv => e.evals = Names(Len(Log[tr].args))
                      /\ G("res") => e.res = "ok"
                      /\ G("text") /\ e.res = "ok" => ~n.bad /\ TextOf(n.runs) = TextOf(key)
                      /\ G("style") /\ e.res = "ok" /\ f # "plain" => Canon(n.runs) = key
                      /\ G("clean") /\ e.res = "ok" => Clean(n)
                      /\ G("same") /\ e.res = "ok" /\ e.be # "rec" => Same(e, key)) = TRUE
             /\ seen' = IF d.err \/ e.res # "ok" \/ e.be = "rec" \/ \E i \in DOMAIN seen : seen[i].f = f /\ seen[i].key = key
                        THEN seen ELSE Append(seen, [f |-> f, key |-> key, raw |-> e.raw])
       /\ l' = l + 1 /\ UNCHANGED <<tr, dens>>
    \/ /\ \/ l > Len(Ev) /\ (Ev # <<>> \/ (IsInv => Judge)) = TRUE
          \/ (IsInv /\ Inv.ok # "yes" /\ Judge) = TRUE
       /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
