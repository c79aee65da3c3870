------------------------------- MODULE T_Kinds -------------------------------
(***************************************************************************)
(* Trace specification: what the compiler says about every public type,    *)
(* whether it may be sent to and shared with other threads, is what        *)
(* Weave.tla says.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Weave, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Log[tr].ev
Init == tr \in 1..Len(Log) /\ l = 1
Next ==
    \/ /\ l <= Len(Ev)
       /\ (Ev[l].send = MaySend(Ev[l].sink) /\ Ev[l].sync = MayShare(Ev[l].sink)) = TRUE
       /\ l' = l + 1 /\ tr' = tr
    \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
