------------------------------- MODULE Forward -------------------------------
(***************************************************************************)
(* Writers that a user implements, and what reaches their methods when     *)
(* methods are called on them directly, through references, by_ref or      *)
(* trait objects.                                                          *)
(*                                                                         *)
(* A call c = [m, runs] of method m; over is the set of provided methods   *)
(* that the writer overrides.  A method that the writer has arrives as it  *)
(* is; a provided method that it does not have is carried out through the  *)
(* ones it has.  Every entry of a log is one step: e = [m, runs, res].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles

Required(kind) == IF kind = "fmt" THEN {"write_str"} ELSE {"write", "flush"}
Provided(kind) == IF kind = "fmt" THEN {"write_char", "write_fmt"} ELSE {"write_all", "write_fmt"}
Own(kind, over) == Required(kind) \cup over

\* The methods that a provided method is carried out through.
Through(kind, m, over) ==
    IF kind = "fmt" THEN {"write_str"} \cup (over \cap {"write_char"})
    ELSE IF m = "write_fmt" /\ "write_all" \in over THEN {"write_all"}
    ELSE {"write"}

\* A call in progress: todo is what has to be delivered yet, res the result once it is known (Open before).
Open == [k |-> "", n |-> 0]
Start(kind, c, over) == [own |-> c.m \in Own(kind, over), called |-> FALSE, todo |-> Canon(c.runs), res |-> Open]

\* the rest of the runs after t in style s; << <<"">> >> if they do not start with that
Bad == << <<"">> >>
Drop(todo, t, s) ==
    IF t = "" THEN todo
    ELSE IF todo = <<>> \/ Len(t) > Len(todo[1][1]) THEN Bad
    ELSE IF SubSeq(todo[1][1], 1, Len(t)) # t \/ todo[1][2] # s THEN Bad
    ELSE IF Len(t) = Len(todo[1][1]) THEN Tail(todo)
    ELSE << <<SubSeq(todo[1][1], Len(t) + 1, Len(todo[1][1])), s>> >> \o Tail(todo)

\* Is e a possible next step of the call c?  In a single write everything that is left is offered.
Possible(kind, c, over, st, e) ==
    /\ st.res = Open
    /\ IF st.own THEN ~st.called /\ e.m = c.m /\ (IF c.m = "write_fmt" THEN Canon(e.runs) = Canon(c.runs) ELSE e.runs = c.runs)
       ELSE /\ e.m \in Through(kind, c.m, over)
            /\ Len(e.runs) = 1
            /\ Drop(st.todo, e.runs[1][1], e.runs[1][2]) # Bad
            /\ c.m = "write_all" => Canon(e.runs) = st.todo /\ st.todo # <<>>

Take(st, e, n) == [st EXCEPT !.todo = Drop(@, SubSeq(e.runs[1][1], 1, n), e.runs[1][2])]
\* res of an entry: [k, n] with k "ok", "n" (a number of bytes), "int" (interrupted), "err" (with identity n)
After(kind, c, over, st, e) ==
    IF st.own THEN [st EXCEPT !.called = TRUE, !.res = e.res]
    ELSE CASE e.res.k = "ok" -> Take(st, e, Len(e.runs[1][1]))
           [] e.res.k = "n" -> IF e.res.n = 0 THEN [st EXCEPT !.res = [k |-> "zero", n |-> 0]] ELSE Take(st, e, e.res.n)
           [] e.res.k = "int" /\ e.m = "write" -> st
           [] OTHER -> [st EXCEPT !.res = e.res]
\* The result of the call when there are no more steps.
Finished(st) == (st.own /\ st.called) \/ (~st.own /\ (st.res # Open \/ st.todo = <<>>))
Result(st) == IF st.own \/ st.res # Open THEN st.res ELSE [k |-> "ok", n |-> 0]
=============================================================================
