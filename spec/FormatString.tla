---------------------------- MODULE FormatString ----------------------------
(***************************************************************************)
(* The format string language of the macros: which strings are format      *)
(* strings, what their pieces mean, which argument every placeholder       *)
(* selects, and which invocations are to be rejected.                      *)
(*                                                                         *)
(* Verdicts are "yes", "no", "maybe" and "unspec".  "maybe" marks what std *)
(* accepts but the library does not have to: such invocations may be       *)
(* rejected, but if they are accepted then their meaning is std's.         *)
(* "unspec" marks what neither documents; nothing is claimed about it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Styles

At(s, i) == IF i \in 1..Len(s) THEN SubSeq(s, i, i) ELSE ""
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i, j) == SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
HasChar(c, s) == c # "" /\ \E i \in 1..Len(s) : At(s, i) = c
Digit == "0123456789"
IsDig(c) == HasChar(c, Digit)
DigVal(c) == (CHOOSE d \in 1..10 : At(Digit, d) = c) - 1
\* some letters beyond ASCII
NonAsciiIdent == {"é", "ü", "ß", "名"}
IdentStart(c) == HasChar(c, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") \/ c \in NonAsciiIdent

IdentCont(c) == IdentStart(c) \/ IsDig(c)
IsSpace(c) == c \in {" ", "\t", "\n", "\r"}

\* end (exclusive) of the longest run of characters with property P from i on
RunEnd(s, i, P(_)) ==
    LET stop == {e \in i..Len(s) : ~P(At(s, e))}
    IN IF i > Len(s) THEN i
       ELSE IF stop = {} THEN Len(s) + 1 ELSE CHOOSE e \in stop : \A x \in stop : e <= x
RECURSIVE NumOf(_)
NumOf(ds) == IF ds = "" THEN 0
             ELSE LET n == NumOf(SubSeq(ds, 1, Len(ds) - 1)) IN
                  IF n > 1000000 THEN n ELSE n * 10 + DigVal(At(ds, Len(ds)))

-----------------------------------------------------------------------------
(* Style attributes: '(' [attribute (',' attribute)* [',']] ')'            *)
\* splits at commas
RECURSIVE SplitAt(_, _)
SplitAt(s, c) ==
    IF HasChar(c, s)
    THEN LET i == CHOOSE i \in 1..Len(s) : At(s, i) = c /\ \A j \in 1..(i - 1) : At(s, j) # c
         IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), c)
    ELSE <<s>>

\* the component (1, 2, 3) and value an attribute sets, or component 0 if there is no such attribute
Attr(a) ==
    CASE Len(a) > 3 /\ SubSeq(a, 1, 3) = "fg=" /\ From(a, 4) \in Colors -> <<1, From(a, 4)>>
      [] Len(a) > 3 /\ SubSeq(a, 1, 3) = "bg=" /\ From(a, 4) \in Colors -> <<2, From(a, 4)>>
      [] a \in Intensities -> <<3, a>>
      [] OTHER -> <<0, a>>
RECURSIVE AttrsDiff(_, _)
AttrsDiff(as, d) == IF as = <<>> THEN d ELSE AttrsDiff(Tail(as), [d EXCEPT ![Attr(Head(as))[1]] = Attr(Head(as))[2]])
NoDiff == <<"none", "none", "none">>
\* the text between the parentheses
ParseAttrs(s) ==
    IF s = "" THEN [ok |-> TRUE, d |-> NoDiff]
    ELSE LET all == SplitAt(s, ",")
             as == IF Len(all) > 1 /\ all[Len(all)] = "" THEN SubSeq(all, 1, Len(all) - 1) ELSE all
         IN IF \A i \in DOMAIN as : Attr(as[i])[1] # 0
            THEN [ok |-> TRUE, d |-> AttrsDiff(as, NoDiff)]
            ELSE [ok |-> FALSE, d |-> NoDiff]

-----------------------------------------------------------------------------
(* Placeholders *)
Types == {"", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E", "s"}
TraitOf(ty) == CASE ty = "" -> "Display" [] ty \in {"?", "x?", "X?"} -> "Debug" [] ty = "o" -> "Octal"
                 [] ty = "x" -> "LowerHex" [] ty = "X" -> "UpperHex" [] ty = "p" -> "Pointer"
                 [] ty = "b" -> "Binary" [] ty = "e" -> "LowerExp" [] ty = "E" -> "UpperExp" [] ty = "s" -> "Stylish"
Aligns == {"<", "^", ">"}

Worse(a, b) == CASE "no" \in {a, b} -> "no" [] "unspec" \in {a, b} -> "unspec" [] "maybe" \in {a, b} -> "maybe" [] OTHER -> "yes"
NoRef == [k |-> "next", i |-> 0, n |-> ""]
Params0 == [fill |-> " ", align |-> "", sign |-> "", alt |-> FALSE, zero |-> FALSE, width |-> -1, prec |-> -1, hex |-> ""]
Arg0 == [k |-> "arg", ref |-> NoRef, p |-> Params0, d |-> NoDiff, trait |-> "Display"]
Bad == [ok |-> "no", arg |-> Arg0]
Unspec == [ok |-> "unspec", arg |-> Arg0]

\* [ok, v (-1: none), i (next)] for a count at i: integer, or a parameter (the library has none,
\* and std takes only numbers, which no argument in the logs is)
Count(s, i) ==
    LET e == RunEnd(s, i, IsDig)
        w == RunEnd(s, i, IdentCont)
    IN IF IdentStart(At(s, i)) /\ At(s, w) = "$" THEN [ok |-> "no", v |-> -1, i |-> w + 1]
       ELSE IF e = i THEN [ok |-> "yes", v |-> -1, i |-> i]
       ELSE IF At(s, e) = "$" THEN [ok |-> "no", v |-> -1, i |-> e + 1]
       ELSE IF NumOf(SubSeq(s, i, e - 1)) > 65535 THEN [ok |-> "no", v |-> -1, i |-> e]
       ELSE [ok |-> "yes", v |-> NumOf(SubSeq(s, i, e - 1)), i |-> e]

\* the format_spec in s (all that follows ':')
ParseSpec(s, ref) ==
    LET filled == At(s, 2) \in Aligns
        align == IF filled THEN At(s, 2) ELSE IF At(s, 1) \in Aligns THEN At(s, 1) ELSE ""
        i1 == IF filled THEN 3 ELSE IF align # "" THEN 2 ELSE 1
        sign == IF At(s, i1) \in {"+", "-"} THEN At(s, i1) ELSE ""
        i2 == IF sign # "" THEN i1 + 1 ELSE i1
        alt == At(s, i2) = "#"
        i3 == IF alt THEN i2 + 1 ELSE i2
        zero == At(s, i3) = "0" /\ At(s, i3 + 1) # "$"
        i4 == IF zero THEN i3 + 1 ELSE i3
        width == Count(s, i4)
        dot == At(s, width.i) = "."
        star == dot /\ At(s, width.i + 1) = "*"
        prec == IF star THEN [ok |-> "no", v |-> -1, i |-> width.i + 2]
                ELSE IF dot THEN Count(s, width.i + 1) ELSE [ok |-> "yes", v |-> -1, i |-> width.i]
        \* a dot with nothing after it
        dotbad == dot /\ ~star /\ prec.i = width.i + 1
        paren == At(s, prec.i) = "("
        close == IF paren /\ HasChar(")", From(s, prec.i))
                 THEN CHOOSE j \in prec.i..Len(s) : At(s, j) = ")" /\ \A k \in prec.i..(j - 1) : At(s, k) # ")"
                 ELSE 0
        attrs == IF close > 0 THEN ParseAttrs(SubSeq(s, prec.i + 1, close - 1)) ELSE [ok |-> ~paren, d |-> NoDiff]
        i5 == IF close > 0 THEN close + 1 ELSE prec.i
        ty == From(s, i5)
        ok == Worse(Worse(width.ok, prec.ok), IF (filled /\ At(s, 1) # " ") \/ dotbad THEN "maybe" ELSE "yes")
    IN IF ~attrs.ok \/ ty \notin Types \/ ok = "no" THEN Bad
       ELSE IF ok = "unspec" THEN Unspec
       ELSE [ok |-> ok,
             arg |-> [k |-> "arg", ref |-> ref, d |-> attrs.d, trait |-> TraitOf(ty),
                      p |-> [fill |-> IF filled THEN At(s, 1) ELSE " ", align |-> align, sign |-> sign, alt |-> alt, zero |-> zero,
                             width |-> width.v, prec |-> prec.v,
                             hex |-> CASE ty = "x?" -> "x" [] ty = "X?" -> "X" [] OTHER -> ""]]]

\* an argument reference: [ok, ref]
ParseRef(s) ==
    IF s = "" THEN [ok |-> "yes", ref |-> NoRef]
    ELSE IF \A i \in 1..Len(s) : IsDig(At(s, i))
         THEN [ok |-> IF NumOf(s) > 1000000 THEN "no" ELSE "yes", ref |-> [k |-> "pos", i |-> NumOf(s), n |-> ""]]
    ELSE IF IdentStart(At(s, 1)) /\ \A i \in 1..Len(s) : IdentCont(At(s, i))
         THEN [ok |-> IF s = "_" THEN "no" ELSE "yes", ref |-> [k |-> "name", i |-> 0, n |-> s]]
    ELSE [ok |-> "no", ref |-> NoRef]

\* the text between the braces, without regard to white space
Placeholder1(s) ==
    LET colon == HasChar(":", s)
        c == IF colon THEN CHOOSE i \in 1..Len(s) : At(s, i) = ":" /\ \A j \in 1..(i - 1) : At(s, j) # ":" ELSE Len(s) + 1
        ref == ParseRef(SubSeq(s, 1, c - 1))
        spec == IF colon THEN ParseSpec(From(s, c + 1), ref.ref) ELSE [ok |-> "yes", arg |-> [Arg0 EXCEPT !.ref = ref.ref]]
    IN IF ref.ok = "no" \/ spec.ok = "no" THEN Bad
       ELSE IF ref.ok = "unspec" \/ spec.ok = "unspec" THEN Unspec
       ELSE spec

\* without the white space that does not separate two words
RECURSIVE Squeeze(_, _)
Squeeze(s, i) ==
    IF i > Len(s) THEN ""
    ELSE IF IsSpace(At(s, i)) /\ ~(IdentCont(At(s, i - 1)) /\ \E j \in (i + 1)..Len(s) : IdentCont(At(s, j)) /\ \A k \in i..(j - 1) : IsSpace(At(s, k)))
         THEN Squeeze(s, i + 1)
         ELSE At(s, i) \o Squeeze(s, i + 1)

Placeholder(s) ==
    LET p == Placeholder1(s) IN
    IF p.ok # "no" THEN p
    ELSE IF (\E i \in 1..Len(s) : IsSpace(At(s, i))) /\ Placeholder1(Squeeze(s, 1)).ok # "no"
         THEN LET q == Placeholder1(Squeeze(s, 1)) IN [q EXCEPT !.ok = Worse("maybe", @)]
    ELSE Bad

-----------------------------------------------------------------------------
(* Format strings: [ok, pieces]; literals are maximal, with {{ and }} already resolved *)
AddLit(ps, t) == IF t = "" THEN ps
                 ELSE IF ps # <<>> /\ ps[Len(ps)].k = "lit" THEN [ps EXCEPT ![Len(ps)].t = @ \o t]
                 ELSE Append(ps, [k |-> "lit", t |-> t])

NotBrace(c) == c \notin {"{", "}"}
RECURSIVE Pieces(_, _, _, _)
Pieces(s, i, ok, ps) ==
    IF i > Len(s) THEN [ok |-> ok, pieces |-> ps]
    ELSE LET c == At(s, i)
             d == At(s, i + 1)
         IN IF NotBrace(c)
            THEN LET e == RunEnd(s, i, NotBrace) IN Pieces(s, e, ok, AddLit(ps, SubSeq(s, i, e - 1)))
            ELSE IF c = d THEN Pieces(s, i + 2, ok, AddLit(ps, c))
            ELSE IF c = "}" THEN [ok |-> "no", pieces |-> <<>>]
            ELSE LET e == RunEnd(s, i + 1, NotBrace)
                 IN IF At(s, e) # "}"
                    THEN \* unclosed, or a brace in a placeholder; std takes braces as fill characters
                         [ok |-> IF HasChar(":", UpTo(s, i, e)) /\ At(s, e) # "" /\ At(s, e - 1) = ":" /\ At(s, e + 1) \in Aligns
                                 THEN "unspec" ELSE "no", pieces |-> <<>>]
                    ELSE IF At(s, e - 1) = ":" /\ At(s, e + 1) \in Aligns
                    THEN [ok |-> "unspec", pieces |-> <<>>]
                    ELSE LET p == Placeholder(SubSeq(s, i + 1, e - 1))
                         IN IF p.ok = "no" THEN [ok |-> "no", pieces |-> <<>>]
                            ELSE Pieces(s, e + 1, Worse(ok, p.ok), Append(ps, p.arg))
Parse(s) == Pieces(s, 1, "yes", <<>>)

-----------------------------------------------------------------------------
(* Invocations.  args: sequence of [n: name or "" for positional, ...], in the order given;    *)
(* scope: the variables in scope.  Resolving replaces every placeholder's ref by               *)
(* [k |-> "arg", i |-> index into args] or [k |-> "var", n |-> name].                          *)
ArgsOk(args) ==
    /\ \A i, j \in DOMAIN args : i < j => ~(args[i].n # "" /\ args[j].n = "")
    /\ \A i, j \in DOMAIN args : i # j /\ args[i].n # "" => args[i].n # args[j].n
NumPos(args) == Cardinality({i \in DOMAIN args : args[i].n = ""})

RECURSIVE Resolve(_, _, _, _, _, _)
\* rest of the pieces, arguments, scope, next automatic index (from 0), verdict so far, resolved pieces
Resolve(ps, args, scope, next, ok, out) ==
    IF ps = <<>> THEN [ok |-> ok, pieces |-> out]
    ELSE LET p == Head(ps) IN
         IF p.k = "lit" THEN Resolve(Tail(ps), args, scope, next, ok, Append(out, p))
         ELSE LET nxt == IF p.ref.k = "next" THEN next + 1 ELSE next
                  idx == IF p.ref.k = "next" THEN next ELSE p.ref.i
                  named == {i \in DOMAIN args : args[i].n = p.ref.n}
                  r == IF p.ref.k = "name"
                       THEN IF named # {} THEN [ok |-> "yes", r |-> [k |-> "arg", i |-> CHOOSE i \in named : TRUE, n |-> ""]]
                            ELSE [ok |-> IF p.ref.n \in scope THEN "yes" ELSE "no", r |-> [k |-> "var", i |-> 0, n |-> p.ref.n]]
                       ELSE IF idx < NumPos(args) THEN [ok |-> "yes", r |-> [k |-> "arg", i |-> idx + 1, n |-> ""]]
                            \* std lets indices run on into the named arguments
                            ELSE [ok |-> IF idx < Len(args) THEN "maybe" ELSE "no", r |-> [k |-> "arg", i |-> idx + 1, n |-> ""]]
              IN Resolve(Tail(ps), args, scope, nxt, Worse(ok, r.ok), Append(out, [p EXCEPT !.ref = r.r]))

\* the arguments that some placeholder selects
Used(ps) == {ps[i].ref.i : i \in {j \in DOMAIN ps : ps[j].k = "arg" /\ ps[j].ref.k = "arg"}}

Invocation(fmt, args, scope) ==
    LET f == Parse(fmt)
        r == Resolve(f.pieces, args, scope, 0, f.ok, <<>>)
    IN IF f.ok = "no" \/ ~ArgsOk(args) THEN [ok |-> "no", pieces |-> <<>>]
       ELSE IF f.ok = "unspec" THEN [ok |-> "unspec", pieces |-> <<>>]
       ELSE IF r.ok = "no" THEN [ok |-> "no", pieces |-> <<>>]
       ELSE IF r.ok = "unspec" THEN [ok |-> "unspec", pieces |-> <<>>]
       ELSE IF Used(r.pieces) # DOMAIN args THEN [ok |-> "no", pieces |-> <<>>]
       ELSE r
=============================================================================
