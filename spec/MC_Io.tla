-------------------------------- MODULE MC_Io --------------------------------
(***************************************************************************)
(* An ideal byte-sink ANSI writer, step by step, against a sink that       *)
(* shortens, interrupts, fails or accepts nothing whenever it likes.       *)
(* Checks that the contract of IoWriter.tla is kept under every schedule,  *)
(* that it implies what C09, C10 and C11 promise about whole histories,    *)
(* and prints every schedule, to be replayed into the code.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Writers, IoWriter

CONSTANTS Program,    \* name of the program
          MaxFaults,  \* number of sink calls that are not simply accepted
          Fatal,      \* number of those that may be fatal
          Mode,       \* "all": write_all; "wr": single writes in a loop of the caller
          Emit

Red == <<"red", "default", "normal">>
RedBold == <<"red", "default", "bold">>
GreenOnBlueFaint == <<"green", "brightblue", "faint">>
Prog == CASE Program = "short" -> << <<"ab", Red>>, <<"c", DefaultStyle>> >>
          [] Program = "mix" -> << <<"a", DefaultStyle>>, <<"bcd", RedBold>>, <<"ef", RedBold>>, <<"g", GreenOnBlueFaint>> >>
          [] Program = "turn" -> << <<"abc", GreenOnBlueFaint>>, <<"d", RedBold>>, <<"ef", DefaultStyle>>, <<"gh", Red>> >>
          [] Program = "one" -> << <<"abcdef", RedBold>> >>
          [] Program = "plain" -> << <<"abcd", DefaultStyle>>, <<"ef", DefaultStyle>> >>

\* the pieces in which the change from one style to another is written
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE <<ToString(Head(ps))>> \o (IF Len(ps) > 1 THEN <<";">> ELSE <<>>) \o Join(Tail(ps))
Change(a, b) == IF a = b THEN <<>> ELSE IF b = DefaultStyle THEN <<"~[0m">>
                ELSE <<"~[">> \o Join(SgrParams(a, b)) \o <<"m">>
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, "", ss)

VARIABLES i,      \* operation under way (the last one is finish)
          ph,     \* "idle", "style", "text", "ret", "over"
          q,      \* style bytes still to be written
          rest,   \* text still to be written
          cur,    \* the style the terminal is believed to be in
          result, \* what the call returns
          c, bad, \* the contract, violated clauses
          faults, fatals, sched, shown, got
vars == <<i, ph, q, rest, cur, result, c, bad, faults, fatals, sched, shown, got>>

Init == /\ i = 1 /\ ph = "idle" /\ q = <<>> /\ rest = Prog[1][1] /\ cur = DefaultStyle /\ result = [n |-> 0, kind |-> "", id |-> 0]
        /\ c = IoInit /\ bad = {} /\ faults = 0 /\ fatals = 0 /\ sched = <<>> /\ shown = <<>> /\ got = ""
Finishing == i > Len(Prog)
S == IF Finishing THEN DefaultStyle ELSE Prog[i][2]
\* an empty change of style after finishing is the reset
Call == /\ ph = "idle"
        /\ LET ch == Change(cur, S)
               kind == IF Finishing THEN "finish" ELSE IF Mode = "wr" THEN "write" ELSE "all"
               r == IoCall(c, [c |-> kind, t |-> rest, s |-> S, ref |-> Concat(ch) \o rest, fails |-> FALSE])
           IN /\ c' = r.c
              /\ q' = ch
              /\ ph' = IF ch # <<>> THEN "style" ELSE IF Finishing THEN "ret" ELSE "text"
              /\ result' = [n |-> 0, kind |-> "", id |-> 0]
        /\ UNCHANGED <<i, rest, cur, bad, faults, fatals, sched, shown, got>>

\* the answers of the sink: [a (as in a script), n, kind]
Answers(off) ==
    { [a |-> <<"full">>, n |-> Len(off), kind |-> "", cost |-> 0, fatal |-> 0] } \cup
    (IF faults >= MaxFaults THEN {} ELSE
        (IF Len(off) > 1 THEN { [a |-> <<"one">>, n |-> 1, kind |-> "", cost |-> 1, fatal |-> 0],
                                [a |-> <<"most">>, n |-> Len(off) - 1, kind |-> "", cost |-> 1, fatal |-> 0] } ELSE {}) \cup
        { [a |-> <<"err", "Interrupted", "3">>, n |-> -1, kind |-> "Interrupted", cost |-> 1, fatal |-> 0] } \cup
        (IF fatals >= Fatal THEN {} ELSE
            { [a |-> <<"err", "BrokenPipe", "7">>, n |-> -1, kind |-> "BrokenPipe", cost |-> 1, fatal |-> 1],
              [a |-> <<"zero">>, n |-> 0, kind |-> "", cost |-> 1, fatal |-> 1] }))

Offer(off, x) ==
    LET e == [off |-> off, n |-> x.n, kind |-> x.kind, id |-> IF x.kind = "Interrupted" THEN 3 ELSE 7]
        r == IoSink(c, e, TRUE)
    IN /\ c' = r.c /\ bad' = bad \cup r.bad
       /\ faults' = faults + x.cost /\ fatals' = fatals + x.fatal
       /\ sched' = Append(sched, x.a)
       /\ got' = got \o (IF x.n > 0 THEN SubSeq(off, 1, x.n) ELSE "")
Failed(x) == result' = [n |-> -1, kind |-> IF x.n = 0 THEN "WriteZero" ELSE x.kind,
                        id |-> IF x.n = 0 THEN 0 ELSE IF x.kind = "Interrupted" THEN 3 ELSE 7]

\* style bytes are written like std's write_all
Style_ ==
    /\ ph = "style"
    /\ \E x \in Answers(Head(q)) :
        /\ Offer(Head(q), x)
        /\ IF x.n > 0
           THEN LET nq == IF x.n = Len(Head(q)) THEN Tail(q) ELSE <<Drop(Head(q), x.n)>> \o Tail(q)
                IN /\ q' = nq
                   /\ ph' = IF nq # <<>> THEN "style" ELSE IF Finishing THEN "ret" ELSE "text"
                   /\ cur' = IF nq = <<>> THEN S ELSE cur
                   /\ UNCHANGED result
           ELSE IF x.kind = "Interrupted" THEN UNCHANGED <<q, ph, cur, result>>
           ELSE Failed(x) /\ ph' = "ret" /\ UNCHANGED <<q, cur>>
    /\ UNCHANGED <<i, rest, shown>>

Text_ ==
    /\ ph = "text"
    /\ \E x \in Answers(rest) :
        /\ Offer(rest, x)
        /\ IF x.n > 0
           THEN /\ rest' = Drop(rest, x.n)
                /\ shown' = AddRun(shown, SubSeq(rest, 1, x.n), S)
                /\ IF Mode = "wr" THEN ph' = "ret" /\ result' = [n |-> x.n, kind |-> "", id |-> 0]
                   ELSE ph' = (IF rest' = "" THEN "ret" ELSE "text") /\ UNCHANGED result
           ELSE /\ UNCHANGED <<rest, shown>>
                /\ IF Mode = "wr"
                   THEN /\ ph' = "ret"
                        /\ IF x.n = 0 THEN result' = [n |-> 0, kind |-> "", id |-> 0] ELSE Failed(x)
                   ELSE IF x.kind = "Interrupted" THEN UNCHANGED <<ph, result>>
                   ELSE Failed(x) /\ ph' = "ret"
    /\ UNCHANGED <<i, q, cur>>

Return ==
    /\ ph = "ret"
    /\ LET r == IoRet(c, result)
       IN /\ c' = r.c
          /\ bad' = bad \cup r.bad \cup If(Finishing /\ result.n # -1 /\ ~IoClean(c), "clean")
    /\ IF Finishing THEN ph' = "over" /\ UNCHANGED <<i, rest>>
       ELSE IF result.n = -1 /\ Mode = "all" THEN ph' = "over" /\ UNCHANGED <<i, rest>>
       ELSE IF rest = "" THEN /\ i' = i + 1
                              /\ rest' = IF i < Len(Prog) THEN Prog[i + 1][1] ELSE ""
                              /\ ph' = "idle"
       ELSE ph' = "idle" /\ UNCHANGED <<i, rest>>
    /\ UNCHANGED <<q, cur, result, faults, fatals, sched, shown, got>>
Over == ph = "over" /\ UNCHANGED vars
Next == Call \/ Style_ \/ Text_ \/ Return \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the contract is kept
Contract == bad = {}
\* the fault-free output
Ideal == LET d == FoldLeft(LAMBDA a, p : [o |-> a.o \o Concat(Change(a.s, p[2])) \o p[1], s |-> p[2]],
                           [o |-> "", s |-> DefaultStyle], Prog)
         IN d.o \o Concat(Change(d.s, DefaultStyle))
\* C09: with short writes and interruptions only, everything arrives, once and in order
AllArrives == ph = "over" /\ fatals = 0 => got = Ideal
\* C10: otherwise what arrives is a prefix, and the error is reported
PrefixArrives == Mode = "all" => IsPrefix_(got, Ideal)
Reported == ph = "over" /\ fatals > 0 /\ Mode = "all" => result.n = -1
\* C11: the terminal has shown every character in its style, in spite of everything
Whole_ == Canon(Prog)
Retried == Finishing /\ Mode = "wr" => shown = Whole_
Terminates == <>(ph = "over")

Ops == [j \in 1..Len(Prog) |-> [o |-> Mode, t |-> Prog[j][1], s |-> Prog[j][2]]] \o << [o |-> "finish"] >>
EmitDone == Emit /\ ph = "over" => PrintT("SCN " \o ToJson([ops |-> Ops, script |-> sched]))
=============================================================================
