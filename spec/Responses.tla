----------------------------- MODULE Responses -----------------------------
(* A function response: the function is a black box that answers every call  *)
(* with a value of its own choice, so a call repeated, left out or reordered *)
(* is visible in what the response holds.  Values are tokens of bit patterns.*)
EXTENDS Integers, Sequences
\* the argument tuple of index k (the second list is empty in one dimension)
ArgAt(in1, in2, k) == IF Len(in2) = 0 THEN <<in1[k]>> ELSE <<in1[k], in2[k]>>
\* admissible scalar call number k (1-based), admissible array call
ScalarCallOK(in1, in2, k, args) == k <= Len(in1) /\ args = ArgAt(in1, in2, k)
ArrayCallOK(in1, in2, n, a1, a2) == n = Len(in1) /\ a1 = in1 /\ a2 = in2
\* lists: length and how the values repeat (all different, runs of equal
\* values, a short period, all the same)
Lengths == <<0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 100, 255, 256, 257, 1000, 4097>>
LongLengths == <<65535, 65536, 65537, 70000>>
Repeats == <<"distinct", "runs", "period", "same">>
Kinds == <<"s1", "s2", "a1", "a2">>
=============================================================================
