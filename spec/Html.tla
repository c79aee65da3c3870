-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* What HTML means to a reader: inline CSS declarations as styles, and a   *)
(* character-level tokenizer following the HTML standard's data, tag,      *)
(* attribute, comment and character reference states.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Styles, SequencesExt

-----------------------------------------------------------------------------
(* Declarations.  Values that mean the colour are accepted, whichever is used; the texts of    *)
(* different colours are disjoint, so different styles cannot share a declaration.             *)
CssColors ==
    [c \in Colors \ {"default"} |->
        CASE c = "black" -> {"black", "#000000", "#000"}
          [] c = "red" -> {"red", "maroon", "#800000", "#cd0000", "#aa0000"}
          [] c = "green" -> {"green", "#008000", "#00cd00", "#00aa00"}
          [] c = "yellow" -> {"yellow", "olive", "#808000", "#cdcd00", "#aaaa00"}
          [] c = "blue" -> {"blue", "navy", "#000080", "#0000ee", "#0000aa"}
          [] c = "magenta" -> {"magenta", "purple", "#800080", "#cd00cd", "#aa00aa"}
          [] c = "cyan" -> {"cyan", "teal", "#008080", "#00cdcd", "#00aaaa"}
          [] c = "white" -> {"white", "silver", "#c0c0c0", "#e5e5e5", "#aaaaaa"}
          [] c = "brightblack" -> {"gray", "grey", "#808080", "#7f7f7f", "#555555"}
          [] c = "brightred" -> {"#af0000", "#ff0000", "#ff5555"}
          [] c = "brightgreen" -> {"lime", "#00ff00", "#55ff55"}
          [] c = "brightyellow" -> {"#ffff00", "#ffff55"}
          [] c = "brightblue" -> {"#0000ff", "#5c5cff", "#5555ff"}
          [] c = "brightmagenta" -> {"fuchsia", "#ff00ff", "#ff55ff"}
          [] c = "brightcyan" -> {"aqua", "#00ffff", "#55ffff"}
          [] c = "brightwhite" -> {"#ffffff", "#fff"}]
CssWeights == [i \in {"bold", "faint"} |->
    IF i = "bold" THEN {"bold", "bolder", "700", "800", "900"} ELSE {"lighter", "100", "200", "300"}]

Meaning(table, v) == IF \E k \in DOMAIN table : v \in table[k]
                     THEN CHOOSE k \in DOMAIN table : v \in table[k] ELSE "unknown"

\* the style that a list of <<property, value>> declares; not a style if it is not an exact one
DeclStyle(d) ==
    LET vals(p) == {i \in DOMAIN d : d[i][1] = p}
        one(p, table, dflt) ==
            LET w == vals(p) IN
            CASE w = {} -> dflt
              [] \E i \in w : w = {i} -> Meaning(table, d[CHOOSE i \in w : TRUE][2])
              [] OTHER -> "repeated"
    IN IF \E i \in DOMAIN d : d[i][1] \notin {"color", "background-color", "font-weight"}
       THEN <<"alien", "alien", "alien">>
       ELSE << one("color", CssColors, "default"), one("background-color", CssColors, "default"),
               one("font-weight", CssWeights, "normal") >>

-----------------------------------------------------------------------------
(* Tokenizer.  m: state, name/end: of the tag, txt: text read, ref: pending character          *)
(* reference (after "&"), open: depth of open elements, bad: anything but span elements.       *)
Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
IsIn(c, s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
IsLetter(c) == IsIn(c, Letters)
IsNum(c) == IsIn(c, "0123456789")
HexDigits == "0123456789abcdef"
HexUpper == "0123456789ABCDEF"
HexVal(c) == IF \E d \in 1..16 : SubSeq(HexDigits, d, d) = c
             THEN (CHOOSE d \in 1..16 : SubSeq(HexDigits, d, d) = c) - 1
             ELSE IF \E d \in 1..16 : SubSeq(HexUpper, d, d) = c
                  THEN (CHOOSE d \in 1..16 : SubSeq(HexUpper, d, d) = c) - 1 ELSE -1
IsHex(c) == HexVal(c) >= 0
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* the character with the given code, as far as this reader needs to tell them apart
CharOf(n) == IF n \in 32..126 THEN SubSeq(Ascii, n - 31, n - 31) ELSE "[char]"
\* named references; the ones in Legacy also count without a semicolon
Named == [amp |-> "&", AMP |-> "&", lt |-> "<", LT |-> "<", gt |-> ">", GT |-> ">", quot |-> "\"",
          QUOT |-> "\"", apos |-> "'", nbsp |-> "[char]", copy |-> "[char]", reg |-> "[char]", times |-> "[char]",
          not |-> "[char]", para |-> "[char]", sect |-> "[char]", eacute |-> "[char]", hearts |-> "[char]"]
Legacy == {"amp", "AMP", "lt", "LT", "gt", "GT", "quot", "QUOT", "nbsp", "copy", "reg", "times", "not", "para",
           "sect", "eacute"}
Number(s, base) == FoldLeft(LAMBDA a, i : IF a > 1114111 THEN a ELSE a * base + HexVal(SubSeq(s, i, i)), 0,
                            [i \in 1..Len(s) |-> i])
LegacyPrefix(s) == {p \in Legacy : Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p}

TokInit == [m |-> "data", txt |-> "", ref |-> "", tag |-> "", end |-> FALSE, quote |-> "", open |-> 0, bad |-> FALSE,
            maxopen |-> 0]

\* resolves the pending reference when character c (or the end, c = "") follows
FlushRef(t, c) ==
    LET r == t.ref
        isnum == Len(r) > 1 /\ SubSeq(r, 1, 1) = "#"
        ishex == isnum /\ SubSeq(r, 2, 2) \in {"x", "X"}
        digits == IF ishex THEN SubSeq(r, 3, Len(r)) ELSE IF isnum THEN SubSeq(r, 2, Len(r)) ELSE ""
        add(x) == [t EXCEPT !.m = "data", !.ref = "", !.txt = @ \o x]
    IN  IF isnum /\ digits # "" THEN add(CharOf(Number(digits, IF ishex THEN 16 ELSE 10)))
        ELSE IF c = ";" /\ r \in DOMAIN Named THEN add(Named[r])
        ELSE IF LegacyPrefix(r) # {}
             THEN LET p == CHOOSE p \in LegacyPrefix(r) : \A q \in LegacyPrefix(r) : Len(q) <= Len(p)
                  IN add(Named[p] \o SubSeq(r, Len(p) + 1, Len(r)) \o (IF c = ";" THEN ";" ELSE ""))
             ELSE add("&" \o r \o (IF c = ";" THEN ";" ELSE ""))

EndTag(t) ==
    IF t.end
    THEN [t EXCEPT !.m = "data", !.open = @ - 1, !.bad = @ \/ t.tag # "span" \/ t.open = 0]
    ELSE [t EXCEPT !.m = "data", !.open = @ + 1, !.bad = @ \/ t.tag # "span",
                   !.maxopen = IF t.open + 1 > @ THEN t.open + 1 ELSE @]

DataChar(t, c) ==
    CASE c = "<" -> [t EXCEPT !.m = "tagopen"]
      [] c = "&" -> [t EXCEPT !.m = "ref", !.ref = ""]
      [] OTHER -> [t EXCEPT !.txt = @ \o c]

TokChar(t, c) ==
    CASE t.m = "data" -> DataChar(t, c)
      [] t.m = "ref" ->
            IF (t.ref = "" /\ c = "#") \/ IsLetter(c) \/ IsNum(c)
            THEN LET r == t.ref \o c IN
                 \* a numeric reference ends at the first character that is not a digit of it
                 IF SubSeq(r, 1, 1) = "#" /\ Len(r) > 1 /\
                    ~(IF SubSeq(r, 2, 2) \in {"x", "X"} THEN Len(r) = 2 \/ IsHex(c) ELSE IsNum(c))
                 THEN DataChar(FlushRef(t, c), c)
                 ELSE [t EXCEPT !.ref = r]
            ELSE IF c = ";" THEN FlushRef(t, c)
            ELSE DataChar(FlushRef(t, c), c)
      [] t.m = "tagopen" ->
            IF IsLetter(c) THEN [t EXCEPT !.m = "tag", !.tag = c, !.end = FALSE]
            ELSE IF c = "/" THEN [t EXCEPT !.m = "endopen"]
            ELSE IF c \in {"!", "?"} THEN [t EXCEPT !.m = "comment", !.bad = TRUE]
            ELSE DataChar([t EXCEPT !.m = "data", !.txt = @ \o "<"], c)
      [] t.m = "endopen" ->
            IF IsLetter(c) THEN [t EXCEPT !.m = "tag", !.tag = c, !.end = TRUE]
            ELSE [t EXCEPT !.m = "comment", !.bad = TRUE]
      [] t.m = "comment" -> IF c = ">" THEN [t EXCEPT !.m = "data"] ELSE t
      [] t.m = "tag" ->
            IF c = ">" THEN EndTag(t)
            ELSE IF c \in {" ", "/", "\t", "\n"} THEN [t EXCEPT !.m = "attrs"]
            ELSE [t EXCEPT !.tag = @ \o c]
      [] t.m = "attrs" ->
            IF c = ">" THEN EndTag(t)
            ELSE IF c = "=" THEN [t EXCEPT !.m = "value"] ELSE t
      [] t.m = "value" ->
            IF c \in {"\"", "'"} THEN [t EXCEPT !.m = "quoted", !.quote = c]
            ELSE IF c = ">" THEN EndTag(t)
            ELSE [t EXCEPT !.m = "unquoted"]
      [] t.m = "quoted" -> IF c = t.quote THEN [t EXCEPT !.m = "attrs"] ELSE t
      [] t.m = "unquoted" ->
            IF c = ">" THEN EndTag(t)
            ELSE IF c \in {" ", "\t", "\n"} THEN [t EXCEPT !.m = "attrs"] ELSE t

TokEnd(t) == CASE t.m = "data" -> t
               [] t.m = "ref" -> FlushRef(t, "")
               [] t.m = "tagopen" -> [t EXCEPT !.txt = @ \o "<", !.m = "data"]
               [] t.m = "endopen" -> [t EXCEPT !.txt = @ \o "</", !.m = "data"]
               [] OTHER -> [t EXCEPT !.bad = TRUE]

Tokenize(s) == TokEnd(FoldLeft(LAMBDA a, i : TokChar(a, SubSeq(s, i, i)), TokInit, [i \in 1..Len(s) |-> i]))

-----------------------------------------------------------------------------
\* the reference escaping, for checking the tokenizer against itself
EscapeChar(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;"
                   [] c = "\"" -> "&#34;" [] c = "'" -> "&#x27;" [] OTHER -> c
Escape(s) == FoldLeft(LAMBDA a, i : a \o EscapeChar(SubSeq(s, i, i)), "", [i \in 1..Len(s) |-> i])
=============================================================================
