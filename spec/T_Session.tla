------------------------------ MODULE T_Session ------------------------------
(***************************************************************************)
(* Trace specification: every recorded session has to be a behaviour of    *)
(* Stylish.tla whose output a reader (Writers.tla) sees as it should be.   *)
(*                                                                         *)
(* One line of the log is one trace.  Gates are the clauses that count.    *)
(* A behaviour that gets stuck (deadlock) is a rejected trace.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Stylish, Writers, IOUtils

CONSTANT Gates
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, m, o, skip
vars == <<tr, l, m, o, skip>>

Ev == Log[tr].ev
Be == Log[tr].be
Has(r, f) == f \in DOMAIN r

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* raw output compared with that of another run
RawOk == /\ "same" \in Gates /\ Has(Log[tr], "ref") => Log[tr].raw = Log[tr].ref
         /\ "prefix" \in Gates /\ Has(Log[tr], "ref") => Prefix(Log[tr].raw, Log[tr].ref)

\* the error that a byte writer's caller hears of is the sink's, if that failed, and nobody else's ever
RECURSIVE OpStart(_)
OpStart(i) == IF i = 0 THEN 1 ELSE IF Ev[i].o \in TopOps THEN i ELSE OpStart(i - 1)
HeardOk == "heard" \in Gates =>
    \A i \in DOMAIN Ev : Has(Ev[i], "heard") =>
        Ev[i].heard = IF \E j \in OpStart(i)..i : Has(Ev[j], "sf") /\ Ev[j].sf THEN "own" ELSE "none"

Init == /\ tr \in 1..Len(Log) /\ l = 1 /\ m = SInit /\ o = RInit /\ skip = FALSE

\* strings made by the entry points: seen when they are there
Made == Be \in {"fansi", "fhtml", "fplain"}
Reader == CASE Be = "fansi" -> "ansi" [] Be = "fhtml" -> "html" [] Be = "fplain" -> "plain" [] OTHER -> Be
Readable == Reader \in {"ansi", "ioansi", "html", "rec", "string"}
Markup == Reader \in {"ansi", "ioansi", "html"}

\* the clauses; r: what has to happen, n: what the reader sees of the event e
Clause(c, e, r, n) ==
    CASE c = "text" -> IF e.sf THEN Prefix(TextOf(n.runs), TextOf(r.runs)) \/ Be \in {"html", "ansi", "ioansi"}
                       ELSE TextOf(n.runs) = TextOf(r.runs)
      [] c = "style" -> e.sf \/ ~Readable \/ (TextOf(n.runs) = TextOf(r.runs) => Canon(n.runs) = Canon(r.runs))
      [] c = "struct" -> e.sf \/ ~n.bad
      [] c = "tight" -> \/ e.sf \/ ~Markup
                        \/ /\ ~n.extra
                           /\ e.o # "finish" /\ TextOf(r.runs) = "" => n.mark = o.mark /\ n.marked = o.marked
                           /\ e.o = "finish" /\ n.last = DefaultStyle => ~n.mark
      [] c = "clean" -> e.sf \/ ~Markup \/
                        ((\A i \in DOMAIN r.m.content : r.m.content[i][2] = DefaultStyle) => ~n.marked)
      [] c = "finish" -> e.o # "finish" \/ e.res = "err" \/ (Clean(n) /\ e.back)
      [] c = "res" -> e.res = r.res
      [] c = "scope" -> r.legal
      [] c = "readback" ->
           e.o # "finish" \/ ~Has(Log[tr], "raw") \/ Be # "html" \/
           LET t == Tokenize(Log[tr].raw)
           IN t.txt = TextOf(r.m.content) /\ ~t.bad /\ t.open = 0 /\ t.maxopen <= 1
      [] OTHER -> TRUE

Next ==
    \/ /\ l <= Len(Ev) /\ ~skip
       /\ (l = 1 => RawOk /\ HeardOk) = TRUE    \* (= TRUE: to be evaluated, not split into actions)
       /\ LET e == Ev[l] IN
          IF e.o = "panic" THEN FALSE
          ELSE LET r0 == IF e.sf THEN StepSinkFailed(m, e) ELSE Step(m, e)
                   \* an attributed string lets nothing be seen until it is shown
                   r == IF Made THEN [r0 EXCEPT !.runs = IF e.o = "finish" THEN r0.m.content ELSE <<>>]
                        ELSE IF Be = "string" /\ e.o # "show" THEN [r0 EXCEPT !.runs = <<>>] ELSE r0
                   n == Read(IF e.o = "show" THEN "rec" ELSE Reader, o, e.out)
               IN IF ~r.legal
                  THEN ("scope" \notin Gates) = TRUE /\ skip' = TRUE /\ UNCHANGED <<m, o>>
                  ELSE /\ (\A c \in Gates : Clause(c, e, r, n)) = TRUE
                       /\ m' = r.m
                       /\ o' = [n EXCEPT !.runs = <<>>]
                       \* lost track: the result is not the expected one, or output is torn
                       /\ skip' = (e.res # r.res \/ (e.sf /\ Markup))
       /\ l' = l + 1 /\ tr' = tr
    \/ /\ l > Len(Ev) \/ skip
       /\ UNCHANGED vars

\* every session that is not cut short by a fault comes to an end with all scopes closed
Complete == l > Len(Ev) /\ ~skip /\ "scope" \in Gates => m.frames = <<>>

Spec == Init /\ [][Next]_vars
\* the state without the parts that follow from the position
View == <<tr, l, skip>>
=============================================================================
