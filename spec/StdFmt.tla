------------------------------- MODULE StdFmt -------------------------------
(***************************************************************************)
(* What the standard library's formatter makes of its parameters: padding  *)
(* of strings and of integers.  Parameters are those of FormatString.tla.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN ""
             ELSE IF n % 2 = 1 THEN c \o Rep(c, n - 1)
             ELSE LET h == Rep(c, n \div 2) IN h \o h

Fit(s, align, width, fill) ==
    LET gap == width - Len(s)
        left == CASE align = "<" -> 0 [] align = ">" -> gap [] align = "^" -> gap \div 2
    IN IF gap <= 0 THEN s ELSE Rep(fill, left) \o s \o Rep(fill, gap - left)

\* Formatter::pad
Pad(s, p) ==
    LET t == IF p.prec >= 0 /\ p.prec < Len(s) THEN SubSeq(s, 1, p.prec) ELSE s
    IN Fit(t, IF p.align = "" THEN "<" ELSE p.align, p.width, p.fill)

\* Formatter::pad_integral
PadInt(neg, prefix, digits, p) ==
    LET sign == IF neg THEN "-" ELSE IF p.sign = "+" THEN "+" ELSE ""
        head == sign \o (IF p.alt THEN prefix ELSE "")
        s == head \o digits
    IN IF p.width <= Len(s) THEN s
       ELSE IF p.zero THEN head \o Rep("0", p.width - Len(s)) \o digits
       ELSE Fit(s, IF p.align = "" THEN ">" ELSE p.align, p.width, p.fill)
=============================================================================
