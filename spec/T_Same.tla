------------------------------- MODULE T_Same -------------------------------
(***************************************************************************)
(* What a program writes is a function of what it was told to write: a     *)
(* history that was run in many ways (in builds of several profiles, with  *)
(* several environments, in several places of a program, after different   *)
(* other histories) was recorded as the same each time.  Stylish!Step has  *)
(* no other argument than the state and the operation; one of the          *)
(* recordings is checked against it, and here the others against that one. *)
(*                                                                         *)
(* The recordings are compared by their digests.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Ways
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, way

Init == tr \in 1..Len(Log) /\ way = 1
\* self-composition: the next run against the first one
Next == \/ /\ way < Ways
           /\ (Len(Log[tr].sums) = Ways /\ Log[tr].sums[1] # "missing"
                 /\ Log[tr].sums[way + 1] = Log[tr].sums[1]) = TRUE
           /\ way' = way + 1 /\ tr' = tr
        \/ way = Ways /\ UNCHANGED <<tr, way>>
Spec == Init /\ [][Next]_<<tr, way>>
=============================================================================
