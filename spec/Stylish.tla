------------------------------- MODULE Stylish -------------------------------
(***************************************************************************)
(* The formatter and writer core of the library as a state machine.        *)
(*                                                                         *)
(* A session is a sequence of operations on one writer.  Some of them open *)
(* a scope (a displayed value, a restyled formatter, a placeholder with    *)
(* attributes, an attributed string under construction, a handler of inner *)
(* errors) that lasts until its "end".  Step gives for every state and     *)
(* operation whether the operation is possible, the new state, the styled  *)
(* runs that have to reach the writer, and the result to be reported.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles, FormatString

SInit == [ frames  |-> <<>>,     \* open scopes, the outermost first
           accs    |-> <<>>,     \* contents of attributed strings under construction
           err     |-> FALSE,    \* an error is on its way to the caller
          pan     |-> FALSE,    \* a panic is on its way
           content |-> <<>>,     \* what has been delivered to the writer (canonical runs)
           done    |-> FALSE ]   \* finished

Last_(s) == s[Len(s)]
Front_(s) == SubSeq(s, 1, Len(s) - 1)
Cur(m) == IF m.frames = <<>> THEN DefaultStyle ELSE Last_(m.frames).s

NestedText == {"t", "sw"}
Openers == {"fmt", "with", "attr", "args", "str", "try", "guard"}
TopOps == {"w", "c", "fmt", "clone", "fork", "show", "flush", "finish"}

Frame(k, s, w, e) == [k |-> k, s |-> s, wrap |-> w, building |-> k = "str", got |-> <<>>]

\* Delivers runs: to the innermost string under construction, or else to the writer.
Deliver(m, rs) ==
    IF m.accs = <<>> THEN [m EXCEPT !.content = AddRuns(@, rs)]
    ELSE [m EXCEPT !.accs[Len(m.accs)] = AddRuns(@, rs)]
\* what the writer sees of it
Visible(m, rs) == IF m.accs = <<>> THEN rs ELSE <<>>

Illegal(m) == [legal |-> FALSE, m |-> m, runs |-> <<>>, res |-> "ok"]
Out(m, rs, res) == [legal |-> TRUE, m |-> m, runs |-> rs, res |-> res]
Put(m, rs) == Out(Deliver(m, rs), Visible(m, rs), "ok")

Open(m, e) ==
    LET s == Cur(m)
        push(mm, k, st, w) == [mm EXCEPT !.frames = Append(@, Frame(k, st, w, e))]
    IN CASE e.o = "fmt"  -> Out(push(m, "fmt", DefaultStyle, IF e.via \in {2, 5} THEN "\n" ELSE ""), <<>>, "ok")
         [] e.o = "with" -> Out(push(m, "with", Apply(e.r, s), ""), <<>>, "ok")
         [] e.o = "args" -> Out(push(m, "args", s, ""), <<>>, "ok")
         [] e.o = "try"  -> Out(push(m, "try", s, ""), <<>>, "ok")
         [] e.o = "guard" -> Out(push(m, "guard", s, ""), <<>>, "ok")
         [] e.o = "str"  -> Out([push(m, "str", DefaultStyle, "") EXCEPT !.accs = Append(@, <<>>)], <<>>, "ok")
         [] e.o = "attr" ->
              LET pre == IF e.k \in {1, 3} THEN << <<"[", s>> >> ELSE <<>>
                  a == ParseAttrs(e.key)
              IN IF ~a.ok THEN Illegal(m)
                 ELSE Out(push(Deliver(m, pre), "attr", ApplyDiff(a.d, s), IF e.k \in {1, 3} THEN "]" ELSE ""),
                          Visible(m, pre), "ok")

\* the innermost scope ends
Close(m, e) ==
    LET fr == Last_(m.frames)
        m1 == [m EXCEPT !.frames = Front_(@)]
        outer == Cur(m1)
    IN IF e.o = "built"
       THEN IF fr.k = "str" /\ fr.building
            THEN Out([m EXCEPT !.frames[Len(m.frames)].building = FALSE,
                               !.frames[Len(m.frames)].got = Last_(m.accs),
                               !.accs = Front_(@)], <<>>, IF m.err THEN "err" ELSE "ok")
            ELSE Illegal(m)
       ELSE IF fr.building THEN Illegal(m)
       ELSE IF fr.k = "try" THEN Out([m1 EXCEPT !.err = FALSE], <<>>, IF m.err THEN "err" ELSE "ok")
       ELSE IF m.err THEN Out(m1, <<>>, "err")
       ELSE IF fr.k = "str" THEN Put(m1, fr.got)
       ELSE Put(m1, IF fr.wrap = "" THEN <<>> ELSE << <<fr.wrap, outer>> >>)

\* A panic is caught by the innermost guard (a value that catches panics of inner values), or else by the
\* one who called the writer. The scopes in between are gone, and with them what they were building.
RECURSIVE LastGuard(_, _)
LastGuard(fs, i) == IF i = 0 THEN 0 ELSE IF fs[i].k = "guard" THEN i ELSE LastGuard(fs, i - 1)
Unwind(m) ==
    LET g == LastGuard(m.frames, Len(m.frames))
        left == SubSeq(m.frames, 1, IF g = 0 THEN 0 ELSE g - 1)
        building == Len(SelectSeq(left, LAMBDA f : f.building))
    IN Out([m EXCEPT !.pan = FALSE, !.frames = left, !.accs = SubSeq(@, 1, building)], <<>>, "panic")

\* At the outermost level no error is on its way any more: it has been returned.
Settle(r) == IF r.legal /\ r.m.frames = <<>> THEN [r EXCEPT !.m.err = FALSE] ELSE r

Step(m, e) ==
    IF m.done THEN Illegal(m)
    ELSE IF m.pan # (e.o = "caught") THEN Illegal(m)
    ELSE IF e.o = "caught" THEN Unwind(m)
    ELSE IF e.o \in {"end", "built"}
    THEN IF m.frames = <<>> THEN Illegal(m) ELSE Settle(Close(m, e))
    ELSE IF m.err THEN Illegal(m)
    ELSE IF (m.frames = <<>>) # (e.o \in TopOps) THEN Illegal(m)
    ELSE IF m.frames # <<>> /\ Last_(m.frames).k = "str" /\ ~Last_(m.frames).building THEN Illegal(m)
    ELSE CASE e.o \in Openers -> Open(m, e)
           [] e.o \in {"w", "c"} -> Put(m, << <<e.t, e.s>> >>)
           [] e.o = "t" -> Put(m, << <<e.t, Cur(m)>> >>)
           [] e.o = "sw" -> Put(m, << <<e.t, e.s>> >>)
           [] e.o = "fail" -> Out([m EXCEPT !.err = TRUE], <<>>, "err")
           [] e.o = "boom" -> Out([m EXCEPT !.pan = TRUE], <<>>, "panic")
           [] e.o \in {"clone", "fork", "flush"} -> Out(m, <<>>, "ok")
           [] e.o = "show" -> Out(m, m.content, "ok")
           [] e.o = "finish" -> Out([m EXCEPT !.done = TRUE], <<>>, "ok")
           [] OTHER -> Illegal(m)

\* The sink failed while e was carried out (the failure itself is not a choice of the library).
StepSinkFailed(m, e) ==
    IF e.o = "finish" THEN Out([m EXCEPT !.done = TRUE], <<>>, "err")
    ELSE IF e.o \in {"w", "c"} THEN LET r == Step(m, e) IN [r EXCEPT !.res = "err"]
    ELSE IF e.o \in {"t", "sw"} THEN LET r == Step(m, e) IN [r EXCEPT !.res = "err", !.m.err = TRUE]
    ELSE \* the sink failed in the literal text around a value, or in showing a built string
         LET r == Step(m, e) IN Settle([r EXCEPT !.res = "err", !.m.err = TRUE])

-----------------------------------------------------------------------------
(* The same meaning, denotationally: the runs of a list of nested operations (trees with the   *)
(* scope's operations in b) shown in style s, and how it ends: "ok", "err" or "panic".         *)
RECURSIVE Den(_, _)
RECURSIVE DenAll(_, _)
Handle(d, how) == IF d.st = how THEN [d EXCEPT !.st = "ok"] ELSE d
Den(op, s) ==
    CASE op.o = "t" -> [rs |-> << <<op.t, s>> >>, st |-> "ok"]
      [] op.o = "sw" -> [rs |-> << <<op.t, op.s>> >>, st |-> "ok"]
      [] op.o = "fail" -> [rs |-> <<>>, st |-> "err"]
      [] op.o = "boom" -> [rs |-> <<>>, st |-> "panic"]
      [] op.o = "with" -> DenAll(op.b, Apply(op.r, s))
      [] op.o = "args" -> DenAll(op.b, s)
      [] op.o = "try" -> Handle(DenAll(op.b, s), "err")
      [] op.o = "guard" -> Handle(DenAll(op.b, s), "panic")
      [] op.o = "attr" ->
           LET d == DenAll(op.b, ApplyDiff(ParseAttrs(op.key).d, s))
               w == op.k \in {1, 3}
           IN [rs |-> (IF w THEN << <<"[", s>> >> ELSE <<>>) \o d.rs
                      \o (IF w /\ d.st = "ok" THEN << <<"]", s>> >> ELSE <<>>),
               st |-> d.st]
      [] op.o = "str" ->
           LET d == DenAll(op.b, DefaultStyle)
           IN [rs |-> IF d.st = "ok" THEN d.rs ELSE <<>>, st |-> d.st]
DenAll(ops, s) ==
    IF ops = <<>> THEN [rs |-> <<>>, st |-> "ok"]
    ELSE LET h == Den(Head(ops), s) IN
         IF h.st # "ok" THEN h
         ELSE LET t == DenAll(Tail(ops), s) IN [rs |-> h.rs \o t.rs, st |-> t.st]
=============================================================================
