------------------------------ MODULE MC_Weave -------------------------------
(***************************************************************************)
(* Explores Weave.tla, checks that uses are independent, and prints every  *)
(* finished behaviour in which they overlap, with its schedule.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Trees, Weave

CONSTANTS MaxOps,      \* bound on the number of operations of all sessions together
          Sessions,    \* how many
          Mode         \* "nest", "threads"

Red == <<"red", "default", "normal">>
Blue == <<"blue", "default", "normal">>
\* each session says something else, in the same styles
Name(k) == <<"a", "b", "c">>[k]
Ops(k) == { [o |-> "fmt", via |-> 2], [o |-> "t", t |-> Name(k), m |-> 0],
            [o |-> "with", r |-> [k |-> "fg", c |-> "blue"]],
            [o |-> "w", t |-> Name(k), s |-> Red], [o |-> "w", t |-> Name(k), s |-> Blue],
            [o |-> "end"], [o |-> "finish"] }

VARIABLES w, hist, sched, over
vars == <<w, hist, sched, over>>

Init == w = WInit(Sessions) /\ hist = [k \in 1..Sessions |-> <<>>] /\ sched = <<>> /\ over = FALSE

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
\* what is needed to bring all sessions to their ends
Need(ms) == Sum([k \in 1..Sessions |-> IF ms[k].done THEN 0 ELSE Len(ms[k].frames) + 1], Sessions)
Total(h) == Sum([k \in 1..Sessions |-> Len(h[k])], Sessions)

Event(k, e) ==
    LET r == Step(w.ms[k], e)
        w2 == Take(Mode, w, k, r.m)
    IN /\ CanTake(Mode, w, k)
       /\ r.legal
       /\ Total(hist) + 1 + Need(w2.ms) <= MaxOps
       /\ w' = w2
       /\ hist' = [hist EXCEPT ![k] = Append(@, e)]
       /\ sched' = Append(sched, IF Mode = "nest" /\ k \in Running(w) THEN 0 ELSE k)
       /\ over' = (over \/ \E j \in 1..Sessions : j # k /\ Busy(w, j))
Ret == /\ CanReturn(Mode, w)
       /\ w' = Return(w)
       /\ sched' = Append(sched, 0)
       /\ UNCHANGED <<hist, over>>
Next == Ret \/ \E k \in 1..Sessions, e \in UNION {Ops(j) : j \in 1..Sessions} : e \in Ops(k) /\ Event(k, e)
Spec == Init /\ [][Next]_vars

\* C24: every session is where it would be on its own
RECURSIVE Alone(_, _)
Alone(m, h) == IF h = <<>> THEN m ELSE Alone(Step(m, Head(h)).m, Tail(h))
Independent == \A k \in 1..Sessions : w.ms[k] = Alone(SInit, hist[k])
\* ... and has delivered what its own operations mean
MeansWhatItSays == \A k \in 1..Sessions :
    w.ms[k].frames = <<>> => w.ms[k].content = Canon(DenTop(TreesOf(hist[k])))
Others == [][\E k \in 1..Sessions : \A j \in 1..Sessions : j # k => w.ms[j] = w'.ms[j]]_vars

AllDone == \A k \in 1..Sessions : w.ms[k].done
EmitDone == (AllDone /\ w.stack = <<>> /\ over) =>
    PrintT("SCN " \o ToJson([sched |-> sched, all |-> [k \in 1..Sessions |-> TreesOf(hist[k])]]))
=============================================================================
