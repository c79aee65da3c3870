---------------------------- MODULE MC_Features ----------------------------
(* Walks the lattice, one feature at a time; gives what every set of features provides. *)
EXTENDS Features, TLC, Json
VARIABLE on
Init == on = {}
Next == \E f \in Feature \ on : on' = Closure(on \cup {f})
Spec == Init /\ [][Next]_on
\* enabling a feature takes nothing away
OnlyAdds == [][Provided(on) \subseteq Provided(on')]_on
Emit == PrintT("SCN " \o ToJson([feats |-> on, items |-> Provided(on)]))
=============================================================================
