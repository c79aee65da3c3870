------------------------------ MODULE T_Parity ------------------------------
(***************************************************************************)
(* The same parameters for the standard library's format! and for this     *)
(* library's: the texts have to be the same.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, ok
Good(c) == /\ c.built = "yes"
           /\ Len(c.ev) = 1
           /\ c.ev[1].o = "parity"
           /\ c.ev[1].ok
           /\ c.ev[1].got = c.ev[1].std
Init == tr \in 1..Len(Log) /\ ok = FALSE
Next == \/ ~ok /\ Good(Log[tr]) = TRUE /\ ok' = TRUE /\ tr' = tr
        \/ ok /\ UNCHANGED <<tr, ok>>
Spec == Init /\ [][Next]_<<tr, ok>>
=============================================================================
