------------------------------ MODULE Patterns ------------------------------
(* Bit patterns that matter to code that stores or compares them: every      *)
(* combination of sign, an exponent at the ends and the middle of its range, *)
(* and a fraction of sparse, dense and mixed bits.                           *)
EXTENDS IEEE, SequencesExt
Frac(F, k) == CASE k = 0 -> ZeroL(F.n)
                [] k = 1 -> OneL(F.n)
                [] k = 2 -> [ZeroL(F.n) EXCEPT ![1] = F.top \div 2]
                [] k = 3 -> [i \in 1..F.n |-> IF i = 1 THEN F.top - 1 ELSE 65535]
                [] k = 4 -> [i \in 1..F.n |-> IF i = 1 THEN (F.top \div 3) ELSE 21845]
                [] k = 5 -> [ZeroL(F.n) EXCEPT ![2] = 61440]
Exps(F) == {0, 1, 2, F.bias - 1, F.bias, F.bias + 1, F.bias + F.mb, EMax(F) - 1, EMax(F)}
Pattern(F, s, e, k) == [Frac(F, k) EXCEPT ![1] = @ + e * F.top + s * 32768]
Patterns(F) == SetToSeq({Pattern(F, s, e, k) : s \in {0, 1}, e \in Exps(F), k \in 0..5})
=============================================================================
