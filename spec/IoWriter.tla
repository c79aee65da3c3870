------------------------------ MODULE IoWriter ------------------------------
(***************************************************************************)
(* The contract of the byte-sink writers, as a state machine over the      *)
(* calls of the caller, the calls the wrapped sink gets, and the returns.  *)
(*                                                                         *)
(* Bytes are characters, ESC is "~" (see Terminal.tla).  Sink results:     *)
(* n >= 0 accepted, or n = -1 and an error [kind, id].                     *)
(* Every operator that can be violated returns a set of the names of the   *)
(* clauses that are violated, next to the new state.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles, Terminal

NoErr == [kind |-> "", id |-> 0]
IoInit == [ call |-> "none",      \* "all", "fmt", "finish": whole-buffer calls; "write", "flush"
            t |-> "", s |-> DefaultStyle,
            rem |-> "",           \* whole-buffer calls: what is still to be delivered
            fails |-> FALSE,      \* formatting itself will fail
            stop |-> NoErr,       \* the error that has to be returned, and nothing else written
            cells |-> "",         \* "write": the bytes that were shown as text in this call
            hands |-> 0,          \* "write": sink calls that were given text
            flushed |-> FALSE,
            vt |-> VtInit ]       \* the terminal behind the sink
Whole == {"all", "fmt", "finish"}
IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Interrupt(e) == e.kind = "Interrupted"

If(cond, name) == IF cond THEN {name} ELSE {}

\* What a sink accepting everything receives has to be the buffer, with escape sequences around it (or, in a short
\* one, also within it).
EndsIn(s, t, k) == Len(s) >= Len(t) + k /\ SubSeq(s, Len(s) - k - Len(t) + 1, Len(s) - k) = t
PlainText(s) == TextOf(VtBytes(VtInit, s).cells)
Delivers(s, t) ==
    \/ \E k \in 0..40 : EndsIn(s, t, k) /\ PlainText(SubSeq(s, Len(s) - k + 1, Len(s))) = ""
                          /\ Len(s) - k - Len(t) < 100 /\ PlainText(SubSeq(s, 1, Len(s) - k - Len(t))) = ""
    \/ Len(s) < 2000 /\ PlainText(s) = PlainText(t)

\* The caller calls.  ref: what a sink accepting everything would have received.
IoCall(c, e) ==
    [ c |-> [c EXCEPT !.call = e.c, !.t = e.t, !.s = e.s, !.rem = e.ref, !.fails = e.fails, !.stop = NoErr,
                      !.cells = "", !.hands = 0, !.flushed = FALSE, !.vt.cells = <<>>],
      bad |-> If(e.c = "all" /\ ~Delivers(e.ref, e.t), "text") ]

\* The sink is given off and answers.  track: whether to follow the terminal (costly for long texts)
IoSink(c, e, track) ==
    LET got == IF e.n > 0 THEN SubSeq(e.off, 1, e.n) ELSE ""
        err == IF e.n = -1 THEN [kind |-> e.kind, id |-> e.id] ELSE NoErr
        vt == IF track THEN VtBytes(c.vt, got) ELSE c.vt
        \* the text among what was offered
        offered == IF track THEN TextOf(VtBytes([c.vt EXCEPT !.cells = <<>>], e.off).cells) ELSE ""
        newcells == IF track THEN TextOf(VtBytes([c.vt EXCEPT !.cells = <<>>], got).cells) ELSE ""
        istext == offered # ""
        zero == e.n = 0 /\ e.off # ""
        whole == c.call \in Whole
        stop == IF c.stop # NoErr THEN c.stop
                ELSE IF e.n = -1 /\ (~Interrupt(err) \/ (c.call = "write" /\ istext)) THEN err
                ELSE IF zero /\ (whole \/ ~istext) THEN [kind |-> "WriteZero", id |-> -1]
                ELSE NoErr
    IN [ c |-> [c EXCEPT !.rem = IF whole THEN Drop(c.rem, Len(got)) ELSE c.rem,
                         !.stop = stop,
                         !.cells = @ \o newcells,
                         !.hands = IF istext THEN @ + 1 ELSE @,
                         !.vt = vt],
         bad |-> \* nothing is written outside of calls
                 If(c.call \notin Whole \cup {"write"}, "quiet")
                 \* after a fatal error no further attempt is made
                 \cup If(c.stop # NoErr, "stop")
                 \* whole-buffer calls: the next bytes of the fault-free output, each once and in order
                 \cup If(whole /\ (e.off = "" \/ ~IsPrefix_(e.off, c.rem)), "exact")
                 \* single writes: the caller's bytes in one attempt, in the right style
                 \cup If(c.call = "write" /\ istext /\ (c.hands > 0 \/ ~IsPrefix_(offered, c.t)), "hand")
                 \cup If(track /\ \E i \in DOMAIN vt.cells : vt.cells[i][2] # c.s /\ c.call \in {"write", "all"}, "shown") ]

IoSinkFlush(c, e) ==
    LET err == IF e.kind = "" THEN NoErr ELSE [kind |-> e.kind, id |-> e.id]
    IN [ c |-> [c EXCEPT !.flushed = TRUE, !.stop = IF c.call = "flush" THEN err ELSE @],
         bad |-> If(c.call # "flush" \/ c.flushed, "quiet") ]

SameErr(r, e) == r.n = -1 /\ r.kind = e.kind /\ (e.id = -1 \/ r.id = e.id)
\* The call returns: n >= 0, or -1 and an error.
IoRet(c, e) ==
    LET whole == c.call \in Whole IN
    [ c |-> [c EXCEPT !.call = "none"],
      bad |-> IF c.stop # NoErr
              THEN If(~SameErr(e, c.stop), IF c.call = "flush" THEN "flush" ELSE "error")
                   \* an error means that none of the bytes were written
                   \cup If(c.call = "write" /\ c.cells # "", "count")
              ELSE CASE whole /\ c.fails -> If(e.n # -1, "error") \cup If(c.rem # "", "exact")
                     [] whole -> If(e.n = -1, "success") \cup If(c.rem # "", "exact")
                     [] c.call = "write" ->
                          If(e.n # Len(c.cells) \/ e.n > Len(c.t), "count")
                          \cup If(~IsPrefix_(c.cells, c.t), "hand")
                          \* something was attempted
                          \cup If(c.t # "" /\ c.hands = 0, "hand")
                     [] c.call = "flush" -> If(~c.flushed \/ e.n = -1, "flush")
                     [] OTHER -> {"quiet"} ]

\* after finishing: nothing switched on, no half an escape sequence
IoClean(c) == c.vt.term = TermReset /\ c.vt.mode = "ground"
=============================================================================
