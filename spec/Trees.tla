-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* From histories (lists of operations) back to the expressions that they  *)
(* came from, and what these mean.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Stylish

RECURSIVE Trees(_, _)
\* [ops, i, p]: the operations from i up to the "end" of the scope (or the end of the list); p: a panic ended it
Trees(h, i) ==
    IF i > Len(h) THEN [ops |-> <<>>, i |-> i, p |-> FALSE]
    ELSE IF h[i].o = "end" THEN [ops |-> <<>>, i |-> i + 1, p |-> FALSE]
    ELSE IF h[i].o = "caught" THEN [ops |-> <<>>, i |-> i + 1, p |-> TRUE]
    ELSE IF h[i].o = "built" THEN Trees(h, i + 1)
    ELSE IF h[i].o \in Openers
         THEN LET b == Trees(h, i + 1)
                  op == h[i] @@ [b |-> b.ops]
              IN IF b.p /\ h[i].o \notin {"guard", "fmt"} THEN [b EXCEPT !.ops = <<op>>]
                 ELSE LET r == Trees(h, b.i) IN [r EXCEPT !.ops = <<op>> \o @]
         ELSE LET r == Trees(h, i + 1) IN [r EXCEPT !.ops = <<h[i]>> \o @]

TreesOf(h) == Trees(h, 1).ops

RECURSIVE DenTop(_)
DenTop(ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET p == Head(ops) IN
         (CASE p.o \in {"w", "c"} -> << <<p.t, p.s>> >>
            [] p.o = "fmt" -> LET d == DenAll(p.b, DefaultStyle)
                              IN d.rs \o (IF p.via \in {2, 5} /\ d.st = "ok" THEN << <<"\n", DefaultStyle>> >> ELSE <<>>)
            [] OTHER -> <<>>) \o DenTop(Tail(ops))

=============================================================================
