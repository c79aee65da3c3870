------------------------------ MODULE T_Matrix ------------------------------
(***************************************************************************)
(* Every transition between two styles, as recorded from the code: row n   *)
(* of the log has the tokens that a writer which has just written "x" in   *)
(* style a emits for an "x" in style b, for all b, and when finished.      *)
(* Token lists are interned in the table on the first line.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Writers, IOUtils

CONSTANT Gates, Lanes
Log == ndJsonDeserialize(IOEnv.TRACE)
Be == Log[1].be
Table == Log[1].table
VARIABLE n

Init == n \in 1..Lanes
Next == n + Lanes <= NumStyles /\ n' = n + Lanes
Spec == Init /\ [][Next]_n

Complete == Len(Log) = NumStyles + 1 /\ Log[1].kind = "table"

TransitionOk(a, r0, b, row) ==
    LET r == Read(Be, r0, Table[row[b + 1]])
        s == StyleOf(b)
    IN /\ "text" \in Gates => TextOf(r.runs) = "x"
       /\ "style" \in Gates => r.runs = << <<"x", s>> >> /\ ~r.bad
       /\ "tight" \in Gates => ~r.extra

RowOk ==
    LET row == Log[n + 1]
        a == n - 1
        r0 == Read(Be, RInit, Table[row.first])
        end == Read(Be, r0, Table[row.fin])
    IN /\ Complete
       /\ row.kind = "row" /\ row.n = a
       /\ "style" \in Gates => r0.runs = << <<"x", StyleOf(a)>> >> /\ ~r0.bad
       /\ "clean" \in Gates /\ StyleOf(a) = DefaultStyle => ~r0.marked /\ ~end.marked
       /\ "finish" \in Gates => Clean(end) /\ ~end.bad /\ end.runs = <<>>
       /\ \A b \in 0..(NumStyles - 1) : TransitionOk(a, r0, b, row.row)
=============================================================================
