----------------------------- MODULE ReportPlan -----------------------------
(* The numbers and rows to be shown.                                         *)
EXTENDS Report, Json, IOUtils, TLC
Fms == <<"d", "f">>
Fmt(f) == IF f = "d" THEN F64 ELSE F32
Quick == IOEnv.TIER = "quick"
(* -------------------------------------------------------------- patterns *)
Single(n, k) == [j \in 1..n |-> IF j = (k \div 16) + 1 THEN Pow(15 - (k % 16)) ELSE 0]
Other(b) == [j \in DOMAIN b |-> 65535 - b[j]]
Mix(n, s) == [j \in 1..n |-> ((((s * 7919 + j * 104729) % 65521) * 30011) + s * 17) % 65536]
Some == IF Quick THEN 60 ELSE 1000
Patterns(F) == [k \in 1..(16 * F.n) |-> Single(F.n, k - 1)] \o [k \in 1..(16 * F.n) |-> Other(Single(F.n, k - 1))]
  \o << ZeroL(F.n), Other(ZeroL(F.n)), [j \in 1..F.n |-> 43690], [j \in 1..F.n |-> 21845] >>
  \o << Enc(F, 0, 1, 0), Enc(F, 1, 3, -1), NegBits(F, ZeroL(F.n)), Enc(F, 0, 1, 5) >>
  \o [k \in 1..Some |-> Mix(F.n, k)]
Texts == [f \in {"d", "f"} |-> Patterns(Fmt(f))]
\* pairs of neighbours in the list, and of a number with itself
PairsOf(f) == LET P == TLCEval(Patterns(Fmt(f))) IN
  [k \in 1..((Len(P) \div 3) * 2) |-> [fmt |-> f, a |-> P[((k * 3) % Len(P)) + 1],
     b |-> IF k % 11 = 0 THEN P[((k * 3) % Len(P)) + 1] ELSE P[((k * 5 + 1) % Len(P)) + 1], show |-> k % 2]]
(* ------------------------------------------------------------------ rows *)
\* decimals that survive the format: six digits, fifteen in double precision
Sign(k) == IF k % 3 = 1 THEN "-" ELSE ""
Short(k) == Sign(k) \o ToString(100 + k) \o "." \o ToString(((k * 37) % 90) + 10) \o ToString((k % 9) + 1)
Long(k) == Sign(k) \o ToString(100 + k) \o "." \o ToString(100000 + ((k * 7919) % 900000)) \o ToString(10000 + ((k * 3571) % 90000)) \o ToString((k % 9) + 1)
\* the functions' reports are rounded more than the format would need
Dec(kind, f, k) == IF f = "d" /\ kind \in Objects THEN Long(k) ELSE Short(k)
Lengths == IF Quick THEN <<0, 1, 2, 3, 11, 40>> ELSE <<0, 1, 2, 3, 4, 5, 8, 11, 16, 17, 40, 100, 200>>
Kinds == <<"scalar1", "loop1", "array1", "scalar2", "loop2", "array2", "pool1", "pool2", "response1", "response2", "comparison1", "comparison2">>
Row(kind, f, n) == [kind |-> kind, fmt |-> f, n |-> n,
   in1 |-> [i \in 1..n |-> Dec(kind, f, i)], in2 |-> [i \in 1..n |-> Dec(kind, f, 250 + i)],
   out1 |-> [i \in 1..n |-> Dec(kind, f, 460 + i)],
   out2 |-> [i \in 1..n |-> Dec(kind, f, IF i % 4 = 0 THEN 460 + i ELSE 679 + i)]]
NK == Len(Kinds)
NL == Len(Lengths)
\* the reports on a single input have one row
Reports == [j \in 1..(NK * 2 * NL) |-> LET k == Kinds[((j - 1) % NK) + 1] IN
   Row(k, Fms[(((j - 1) \div NK) % 2) + 1], IF k \in {"scalar1", "scalar2"} THEN 1 ELSE Lengths[((j - 1) \div (2 * NK)) + 1])]
ASSUME JsonSerialize(IOEnv.PLAN, [texts |-> Texts, pairs |-> PairsOf("d") \o PairsOf("f"), reports |-> Reports])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
