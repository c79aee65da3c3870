------------------------------ MODULE MC_Forward ------------------------------
(***************************************************************************)
(* All calls on writers with all sets of overridden methods, and all       *)
(* results of up to MaxSteps method calls on the writer; prints them.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Forward
CONSTANT MaxSteps
Red == <<"red", "default", "bold">>
Runs1 == << <<"abc", Red>> >>
Texts == { << <<"abc", Red>> >>, << <<"", Red>> >>, << <<"xy", DefaultStyle>> >> }
Formatted == { <<>>, << <<"abc", Red>> >>, << <<"ab", DefaultStyle>>, <<"cd", Red>> >>,
               << <<"a", Red>>, <<"b", DefaultStyle>>, <<"c", Red>> >> }
Calls(kind) ==
    IF kind = "fmt"
    THEN [m : {"write_str"}, runs : Texts] \cup [m : {"write_char"}, runs : { << <<"z", Red>> >>, << <<"q", DefaultStyle>> >> }]
         \cup [m : {"write_fmt"}, runs : Formatted]
    ELSE [m : {"write", "write_all"}, runs : Texts] \cup [m : {"flush"}, runs : {<<>>}] \cup [m : {"write_fmt"}, runs : Formatted]
Res(kind, e) ==
    IF kind = "fmt" THEN {[k |-> "ok", n |-> 0], [k |-> "err", n |-> 0]}
    ELSE IF e.m = "write" THEN [k : {"n"}, n : 0..(IF e.runs = <<>> THEN 0 ELSE Len(e.runs[1][1]))]
                               \cup {[k |-> "int", n |-> 0], [k |-> "err", n |-> 7]}
    ELSE {[k |-> "ok", n |-> 0], [k |-> "int", n |-> 0], [k |-> "err", n |-> 9]}

VARIABLES kind, over, call, st, script
vars == <<kind, over, call, st, script>>
Init == /\ kind \in {"fmt", "io"} /\ over \in SUBSET Provided(kind) /\ call \in Calls(kind)
        /\ st = Start(kind, call, over) /\ script = <<>>
\* the step that the ideal implementation makes
Entry == IF st.own THEN [m |-> call.m, runs |-> call.runs]
         ELSE [m |-> CHOOSE m \in Through(kind, call.m, over) : m # "write_char", runs |-> <<st.todo[1]>>]
Next == /\ ~Finished(st) /\ Len(script) < MaxSteps
        /\ \E r \in Res(kind, Entry) :
             LET e == Entry @@ [res |-> r]
             IN /\ Possible(kind, call, over, st, e)
                /\ st' = After(kind, call, over, st, e)
                /\ script' = Append(script, r)
        /\ UNCHANGED <<kind, over, call>>
Spec == Init /\ [][Next]_vars

\* The ideal implementation always has a step to make, and what it has not delivered is still to be delivered.
NeverStuck == ~Finished(st) => Possible(kind, call, over, st, Entry @@ [res |-> [k |-> "ok", n |-> 0]])
RECURSIVE Lens(_)
Lens(rs) == IF rs = <<>> THEN 0 ELSE Len(rs[1][1]) + Lens(Tail(rs))
OnlyShrinks == [][Lens(st'.todo) <= Lens(st.todo)]_vars
OkMeansAll == Finished(st) /\ ~st.own /\ Result(st).k = "ok" => st.todo = <<>>
EmitDone == Finished(st) => PrintT("SCN " \o ToJson([kind |-> kind, over |-> over, call |-> call, script |-> script]))
=============================================================================
