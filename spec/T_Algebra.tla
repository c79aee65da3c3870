------------------------------ MODULE T_Algebra ------------------------------
(* The results of the code's restyling operations on all pairs of styles, all differences and  *)
(* all single components, one line per style, against Styles.tla.                              *)
EXTENDS Integers, Sequences, TLC, Json, Styles, IOUtils

CONSTANT Lanes
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
Init == n \in 1..Lanes
Next == n + Lanes <= NumStyles /\ n' = n + Lanes
Spec == Init /\ [][Next]_n

Index(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
ColorNo == [c \in Colors |-> Index(ColorSeq, c)]
IntNo == [i \in Intensities |-> Index(IntensitySeq, i)]
Number(s) == ((ColorNo[s[1]] - 1) * 17 + (ColorNo[s[2]] - 1)) * 3 + (IntNo[s[3]] - 1)
StyleTab == [k \in 0..(NumStyles - 1) |-> StyleOf(k)]
DiffCode(d) == ((IF d[1] = "none" THEN 0 ELSE ColorNo[d[1]]) * 18 + (IF d[2] = "none" THEN 0 ELSE ColorNo[d[2]])) * 4
               + (IF d[3] = "none" THEN 0 ELSE IntNo[d[3]])
DiffOf(k) == LET c == (k \div 4) IN
             << IF c \div 18 = 0 THEN "none" ELSE ColorSeq[c \div 18], IF c % 18 = 0 THEN "none" ELSE ColorSeq[c % 18],
                IF k % 4 = 0 THEN "none" ELSE IntensitySeq[k % 4] >>
DiffTab == [k \in 0..1295 |-> DiffOf(k)]

RowOk ==
    LET r == Log[n]
        a == StyleTab[n - 1]
    IN /\ Len(Log) = NumStyles /\ r.kind = "algebra" /\ r.n = n - 1 /\ r.self = n - 1
       /\ \A b \in 0..(NumStyles - 1) :
            /\ r.row[b + 1] = DiffCode(DiffFrom(StyleTab[b], a))
            /\ r.to[b + 1] = b
            /\ r.whole[b + 1] = b
       /\ \A d \in 0..1295 : r.app[d + 1] = Number(ApplyDiff(DiffTab[d], a))
       /\ \A i \in 1..17 : /\ r.fg[i] = Number(<<ColorSeq[i], a[2], a[3]>>)
                           /\ r.bg[i] = Number(<<a[1], ColorSeq[i], a[3]>>)
       /\ \A i \in 1..3 : r.int[i] = Number(<<a[1], a[2], IntensitySeq[i]>>)
=============================================================================
