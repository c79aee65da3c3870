------------------------------ MODULE T_Forward ------------------------------
(***************************************************************************)
(* Trace specification: recorded calls on a user's writer through some     *)
(* route have to be steps of Forward.tla, and give its result.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Forward, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, st
vars == <<tr, l, st>>
Rec == Log[tr]
Over == {Rec.over[i] : i \in DOMAIN Rec.over}
Init == /\ tr \in 1..Len(Log) /\ l = 1
        /\ st = Start(Log[tr].kind, Log[tr].call, {Log[tr].over[i] : i \in DOMAIN Log[tr].over})
Next ==
    \/ /\ l <= Len(Rec.log)
       /\ Possible(Rec.kind, Rec.call, Over, st, Rec.log[l]) = TRUE
       /\ st' = After(Rec.kind, Rec.call, Over, st, Rec.log[l])
       /\ l' = l + 1 /\ tr' = tr
    \/ /\ l > Len(Rec.log)
       /\ (Finished(st) /\ Result(st) = Rec.res) = TRUE
       /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
