-------------------------------- MODULE Weave --------------------------------
(***************************************************************************)
(* Several uses of the library at once.  Each is a session of Stylish.tla, *)
(* with a state of its own; what one of them does is no business of the    *)
(* others.  Inside of one thread a use goes on within another one (a value *)
(* that uses the library while it is displayed, a sink that uses it while  *)
(* it is written to), so that the running uses form a stack; in threads of *)
(* their own they go on in any order.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Stylish

WInit(n) == [ms |-> [k \in 1..n |-> SInit], stack |-> <<>>]

Running(w) == {w.stack[i] : i \in DOMAIN w.stack}
Top(w) == IF w.stack = <<>> THEN 0 ELSE w.stack[Len(w.stack)]
Busy(w, k) == w.ms[k].frames # <<>>

\* Session k takes event e; nested: the running sessions form a stack, and only the last one goes on or starts
\* another one; a session that is at rest and has taken its event returns to the one that it runs within.
CanTake(mode, w, k) ==
    /\ ~w.ms[k].done
    /\ mode = "nest" => k \notin Running(w) \/ (Top(w) = k /\ Busy(w, k))
CanReturn(mode, w) == mode = "nest" /\ Top(w) # 0 /\ ~Busy(w, Top(w))

Take(mode, w, k, m2) ==
    [w EXCEPT !.ms[k] = m2, !.stack = IF mode # "nest" \/ k \in Running(w) THEN @ ELSE Append(@, k)]
\* A writer holds its sink and its own state and nothing that belongs to a thread: it goes wherever its sink may go
\* and is used by whom its sink may be used; styles and strings hold no sink ("").
GoesAnywhere == {"", "free", "sent"}
UsedByAnyone == {"", "free"}
MaySend(sink) == sink \in GoesAnywhere
MayShare(sink) == sink \in UsedByAnyone

Return(w) == [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
