------------------------------- MODULE Styles -------------------------------
(***************************************************************************)
(* Styles, style differences and restylings.                               *)
(*                                                                         *)
(* A style is <<foreground, background, intensity>>.  A difference is the  *)
(* same with "none" for a component that is not mentioned.  A restyling is *)
(* a tree (a record with a field k), as the harness builds from JSON.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

BasicColors == <<"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white">>
BrightColors == <<"brightblack", "brightred", "brightgreen", "brightyellow",
                  "brightblue", "brightmagenta", "brightcyan", "brightwhite">>
\* in the order of harness/src/style.rs
ColorSeq == <<"default">> \o BasicColors \o BrightColors
IntensitySeq == <<"normal", "bold", "faint">>

Rng(s) == {s[i] : i \in DOMAIN s}
Colors == Rng(ColorSeq)
Intensities == Rng(IntensitySeq)

Styles == Colors \X Colors \X Intensities
DefaultStyle == <<"default", "default", "normal">>
Diffs == (Colors \cup {"none"}) \X (Colors \cup {"none"}) \X (Intensities \cup {"none"})

NumStyles == 867
\* the enumeration shared with the harness, n \in 0..866
StyleOf(n) == <<ColorSeq[(n \div 51) + 1], ColorSeq[((n \div 3) % 17) + 1], IntensitySeq[(n % 3) + 1]>>

-----------------------------------------------------------------------------
DiffFrom(new, old) == [i \in 1..3 |-> IF new[i] = old[i] THEN "none" ELSE new[i]]
ApplyDiff(d, s) == [i \in 1..3 |-> IF d[i] = "none" THEN s[i] ELSE d[i]]

RECURSIVE Apply(_, _)
RECURSIVE ApplyAll(_, _)
Apply(r, s) ==
    CASE r.k = "fg"     -> <<r.c, s[2], s[3]>>
      [] r.k = "bg"     -> <<s[1], r.c, s[3]>>
      [] r.k = "int"    -> <<s[1], s[2], r.i>>
      [] r.k = "style"  -> r.s
      [] r.k = "diff"   -> ApplyDiff(r.d, s)
      [] r.k = "unit"   -> s
      [] r.k = "none"   -> s
      [] r.k = "some"   -> Apply(r.r, s)
      [] r.k = "ref"    -> Apply(r.r, s)
      [] r.k = "box"    -> Apply(r.r, s)
      [] r.k = "pair"   -> Apply(r.b, Apply(r.a, s))
      [] r.k = "triple" -> Apply(r.c, Apply(r.b, Apply(r.a, s)))
      [] r.k = "seq"    -> ApplyAll(r.rs, s)
      [] r.k = "user"   -> ApplyAll(r.rs, s)
      [] r.k = "diffof" -> ApplyDiff(DiffFrom(r.to, r.from), s)
ApplyAll(rs, s) == IF rs = <<>> THEN s ELSE ApplyAll(Tail(rs), Apply(Head(rs), s))

-----------------------------------------------------------------------------
\* The algebra that C06 asks for, stated over the operators above.
DiffReaches(a, b) == ApplyDiff(DiffFrom(b, a), a) = b
DiffMinimal(a, b) == \A i \in 1..3 : (DiffFrom(b, a)[i] # "none") <=> (a[i] # b[i])
DiffIdempotent(d, s) == ApplyDiff(d, ApplyDiff(d, s)) = ApplyDiff(d, s)
DiffNothing(a) == DiffFrom(a, a) = <<"none", "none", "none">>
SetOne(s) ==
    \A c \in Colors :
        /\ Apply([k |-> "fg", c |-> c], s) = <<c, s[2], s[3]>>
        /\ Apply([k |-> "bg", c |-> c], s) = <<s[1], c, s[3]>>
        /\ \A d \in Colors : /\ Apply([k |-> "pair", a |-> [k |-> "fg", c |-> c], b |-> [k |-> "fg", c |-> d]], s)
                                  = Apply([k |-> "fg", c |-> d], s)
                             /\ Apply([k |-> "pair", a |-> [k |-> "fg", c |-> c], b |-> [k |-> "bg", c |-> d]], s)
                                  = Apply([k |-> "pair", a |-> [k |-> "bg", c |-> d], b |-> [k |-> "fg", c |-> c]], s)

-----------------------------------------------------------------------------
(* Styled text is a sequence of runs <<text, style>>. *)
\* Appends a run, keeping the sequence canonical: no empty runs, neighbours differ in style.
AddRun(rs, t, s) ==
    IF t = "" THEN rs
    ELSE IF rs # <<>> /\ rs[Len(rs)][2] = s
         THEN [rs EXCEPT ![Len(rs)] = <<@[1] \o t, s>>]
         ELSE Append(rs, <<t, s>>)
AddRuns(rs, more) == FoldLeft(LAMBDA a, r : AddRun(a, r[1], r[2]), rs, more)
Canon(rs) == AddRuns(<<>>, rs)
TextOf(rs) == FoldLeft(LAMBDA a, r : a \o r[1], "", rs)
=============================================================================
