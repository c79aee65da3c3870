----------------------------- MODULE T_Features -----------------------------
(***************************************************************************)
(* One line per set of features: the items of which a program was built    *)
(* and run, and what each of them put out.                                 *)
(*   [feats, built, out: [item |-> text], all: [item |-> text]]            *)
(* all is the output under all features; ses/sesall likewise for recorded  *)
(* sessions (digests of their traces).                                     *)
(***************************************************************************)
EXTENDS Features, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, ok
SetOf(s) == {s[i] : i \in DOMAIN s}
Good(c) == LET P == Provided(SetOf(c.feats)) IN
    /\ c.built = "yes"
    \* everything that is provided was there
    /\ P \subseteq DOMAIN c.out
    /\ P \subseteq DOMAIN c.all
    \* and did the same
    /\ \A i \in P : c.out[i] = c.all[i]
    \* so did every recorded session
    /\ \A s \in DOMAIN c.ses : s \in DOMAIN c.sesall /\ c.ses[s] = c.sesall[s]
Init == tr \in 1..Len(Log) /\ ok = FALSE
Next == \/ ~ok /\ Good(Log[tr]) = TRUE /\ ok' = TRUE /\ tr' = tr
        \/ ok /\ UNCHANGED <<tr, ok>>
Spec == Init /\ [][Next]_<<tr, ok>>
=============================================================================
