------------------------------ MODULE T_Restyle ------------------------------
(***************************************************************************)
(* Restyling trees applied by the code: s.with(r), r.apply(s), and the     *)
(* difference from s to s.with(r) applied to s all have to be Apply(r, s). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Styles, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, ok
Good(e) == /\ "with" \in DOMAIN e
           /\ LET s == Apply(e.r, e.s) IN e.with = s /\ e.apply = s /\ e.viadiff = s
Init == n \in 1..Len(Log) /\ ok = FALSE
Next == \/ ~ok /\ Good(Log[n]) = TRUE /\ ok' = TRUE /\ n' = n
        \/ ok /\ UNCHANGED <<n, ok>>
Spec == Init /\ [][Next]_<<n, ok>>
=============================================================================
