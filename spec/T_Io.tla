-------------------------------- MODULE T_Io --------------------------------
(***************************************************************************)
(* Trace specification of the byte-sink writers: the recorded calls,       *)
(* sink calls and returns have to follow the contract in IoWriter.tla.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IoWriter, IOUtils

CONSTANTS Gates,   \* the clauses that count
          Track    \* whether to follow the terminal
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, c
vars == <<tr, l, c>>
Ev == Log[tr].ev
Be == Log[tr].be

Init == tr \in 1..Len(Log) /\ l = 1 /\ c = IoInit

\* only the ANSI writer shows styles
Relevant == IF Be = "ioansi" THEN Gates \cup {"panic"} ELSE (Gates \ {"shown", "clean"}) \cup {"panic"}

R(e) == CASE e.o = "call" -> IoCall(c, e)
          [] e.o = "sink" -> IF e.off = "" /\ c.call = "write" /\ c.t = "" THEN [c |-> c, bad |-> {}]
                             ELSE IoSink(c, e, Track)
          [] e.o = "sinkflush" -> IoSinkFlush(c, e)
          [] e.o = "ret" ->
               LET r == IoRet(c, e)
               IN IF Track /\ c.call = "finish" /\ e.n # -1 /\ ~IoClean(c)
                  THEN [r EXCEPT !.bad = @ \cup {"clean"}] ELSE r
          [] e.o = "panic" -> [c |-> c, bad |-> {"panic"}]

Next ==
    \/ /\ l <= Len(Ev)
       /\ LET r == R(Ev[l])
          IN /\ (r.bad \cap Relevant = {}) = TRUE
             /\ (Be = "iouser" /\ Ev[l].o = "sink" /\ c.call \in {"all", "write"} /\ "style" \in Gates
                   => Ev[l].s = c.s) = TRUE
             /\ c' = r.c
       /\ l' = l + 1 /\ tr' = tr
    \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
