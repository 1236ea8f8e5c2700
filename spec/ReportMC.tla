------------------------------ MODULE ReportMC ------------------------------
(* A report at work: rows are shown one after the other, from a set of       *)
(* columns; a number of the smaller format is held in the lower half of a    *)
(* wide word, from which its bits are taken.  Variants to be rejected:       *)
(* "short" leaves out the last row, "before" shows the row before, "swapped" *)
(* exchanges the results, "upper" takes the bits from the upper half,        *)
(* "exponent" ends the exponent one bit early.                               *)
EXTENDS Report
CONSTANTS MaxN, Variant
\* two toy formats: 8 bits (3 for the exponent) and 16 (5), as one limb
Small == [eb |-> 3, mb |-> 4, w |-> 8]
Large == [eb |-> 5, mb |-> 10, w |-> 16]
VARIABLES n, i, shown, num, text
vars == <<n, i, shown, num, text>>
Col(c, k) == 10 * c + k
Init == n \in 0..MaxN /\ i = 0 /\ shown = <<>> /\ num \in {<<f, b>> : f \in {"s"}, b \in 0..255} \cup {<<"l", b>> : b \in {257 * k : k \in 0..255}} /\ text = <<>>
More == IF Variant = "short" THEN i + 1 < n ELSE i < n
Pick == IF Variant = "before" /\ i > 0 THEN i - 1 ELSE i
Show == /\ More /\ i' = i + 1 /\ UNCHANGED <<n, num, text>>
        /\ shown' = Append(shown, IF Variant = "swapped" THEN <<Col(1, Pick), Col(3, Pick), Col(2, Pick)>> ELSE <<Col(1, Pick), Col(2, Pick), Col(3, Pick)>>)
\* the word of 16 bits as a list, the small format in its lower half
Word == [k \in 0..15 |-> (num[2] \div Pow(15 - k)) % 2]
Fm == IF num[1] = "s" THEN Small ELSE Large
Off == IF num[1] = "s" /\ Variant # "upper" THEN 8 ELSE 0
Cut == IF Variant = "exponent" THEN Fm.eb - 1 ELSE Fm.eb
Write == /\ ~More /\ text = <<>> /\ UNCHANGED <<n, i, shown, num>>
         /\ text' = << [k \in 1..1 |-> Word[Off]], [k \in 1..Cut |-> Word[Off + k]], [k \in 1..Fm.mb |-> Word[Off + Cut + k]] >>
Spec == Init /\ [][Show \/ Write]_vars
Rows == text # <<>> => shown = [k \in 1..n |-> <<Col(1, k - 1), Col(2, k - 1), Col(3, k - 1)>>]
RECURSIVE Value(_, _, _)
Value(s, k, acc) == IF k > Len(s) THEN acc ELSE Value(s, k + 1, 2 * acc + s[k])
\* the text can be read back
Readable == text # <<>> => Value(text[1] \o text[2] \o text[3], 1, 0) = num[2]
\* the text of a pattern tells all patterns apart: compared for half floats
Half == [n |-> 1, eb |-> 5, mb |-> 10]
ASSUME BitText(Half, <<32769>>) = "1 00000 0000000001" /\ BitText(Half, <<31744>>) = "0 11111 0000000000"
=============================================================================
