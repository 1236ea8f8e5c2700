------------------------------- MODULE Report -------------------------------
(* What is shown on the screen: the bits of a number as text, the difference *)
(* of two numbers or functions, and the rows of pools, responses and         *)
(* comparisons.  Decimal numbers are strings in their shortest form.         *)
EXTENDS Diffs, IEEE
(* ------------------------------------------------------------------ bits *)
Pow(k) == Pow2Small[k]
\* bit number k of a pattern of W limbs, counted from the sign
BitAt(b, k) == (b[(k \div 16) + 1] \div Pow(15 - (k % 16))) % 2
RECURSIVE Digits(_, _, _)
Digits(b, k, n) == IF n = 0 THEN "" ELSE (IF BitAt(b, k) = 1 THEN "1" ELSE "0") \o Digits(b, k + 1, n - 1)
\* sign, exponent and mantissa, separated by blanks
BitText(F, b) == Digits(b, 0, 1) \o " " \o Digits(b, 1, F.eb) \o " " \o Digits(b, 1 + F.eb, F.mb)
(* --------------------------------------------------------------- reports *)
\* r: [kind, fmt, n, in1, in2, out1, out2], decimals in the order of the rows
TwoD == {"scalar2", "loop2", "array2", "pool2", "response2", "comparison2"}
Functions == {"scalar1", "loop1", "array1", "scalar2", "loop2", "array2"}
Objects == {"pool1", "pool2", "response1", "response2", "comparison1", "comparison2"}
Ins(r, i) == IF r.kind \in TwoD THEN <<r.in1[i], r.in2[i]>> ELSE <<r.in1[i]>>
Outs(r, i) ==
  CASE r.kind \in {"pool1", "pool2"} -> <<>>
    [] r.kind \in {"response1", "response2"} -> <<r.out1[i]>>
    [] OTHER -> <<r.out1[i], r.out2[i]>>
Compares(r) == r.kind \in {"comparison1", "comparison2"}
DiffAt(r, i) == Diff(r.b1[i], r.b2[i])
\* the row that must be shown as number i; b1, b2: the patterns of both results
RowOK(F, r, i, o) ==
  IF r.kind \in Functions
  THEN IF o.nums # Ins(r, i) \o Outs(r, i) THEN "does not show its input and the values of both functions"
       ELSE IF o.diff # DiffAt(r, i) THEN "does not show the difference of the values"
       ELSE IF o.texts # <<BitText(F, r.b1[i]), BitText(F, r.b2[i])>> THEN "does not show the bits of the values" ELSE "ok"
  ELSE IF o.index # i - 1 \/ o.total # r.n THEN "is not numbered"
       ELSE IF o.nums # Ins(r, i) \o Outs(r, i) THEN "does not show its own numbers"
       ELSE IF Compares(r) /\ o.bits # <<r.b1[i], r.b2[i]>> THEN "does not show the bits of its results"
       ELSE IF Compares(r) /\ o.diff # DiffAt(r, i) THEN "does not show its difference" ELSE "ok"
EndOK(r, rows, max, min) ==
  IF rows # r.n THEN "does not have one row for each input"
  ELSE IF Compares(r) /\ r.n > 0 /\ (\/ max # MaxOf([i \in 1..r.n |-> DiffAt(r, i)])
                                     \/ min # MinOf([i \in 1..r.n |-> DiffAt(r, i)])) THEN "does not show the largest and smallest difference"
  ELSE "ok"
(* number pair: [fmt, a, b, show] *)
PairOK(F, p, o) ==
  IF o.diff # Diff(p.a, p.b) THEN "does not show the difference"
  ELSE IF o.texts # (IF p.show = 1 THEN <<BitText(F, p.a), BitText(F, p.b)>> ELSE <<>>) THEN "does not show the bits of both numbers"
  ELSE "ok"
=============================================================================
