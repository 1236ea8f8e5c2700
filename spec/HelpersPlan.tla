---------------------------- MODULE HelpersPlan ----------------------------
(* The patterns the helpers are observed on one by one, and the masks.       *)
EXTENDS Helpers, Json, IOUtils, SequencesExt, TLC
Lead == {0, 1, 15, 16, 127, 128, 129, 16000, 16255, 16256, 16257, 16367, 16368, 16369, 16383, 16384, 16385, 16500, 17000, 20000, 32639, 32640, 32641, 32704, 32751, 32752, 32753, 32760, 32767}
\* exponents around 0..31 for the floor
LeadE(F) == {(F.bias + e) * F.top + k : e \in -2..31, k \in {0, F.top \div 2, F.top - 1}}
Rest == {0, 1, 32767, 32768, 65535, 43690}
Tails(F) == IF F.n = 2 THEN {<<r>> : r \in Rest} ELSE {<<q, r, r2>> : q \in Rest, r \in {0, 65535, 1}, r2 \in {0, 1, 65535, 32768}}
Pats(F) == {<<l + s * 32768>> \o t : l \in Lead \cup LeadE(F), s \in {0, 1}, t \in Tails(F)}
Masks(F) == {[i \in 1..F.n |-> 65535], [i \in 1..F.n |-> 0], [i \in 1..F.n |-> IF i = 1 THEN 32768 ELSE 0], [i \in 1..F.n |-> IF i = 1 THEN 32767 ELSE 65535]}
            \cup {[i \in 1..F.n |-> IF i = j THEN 2^b ELSE 0] : j \in 1..F.n, b \in 0..15}
            \cup {[i \in 1..F.n |-> 21845], [i \in 1..F.n |-> 43690 - 257 * i]}
ASSUME JsonSerialize(IOEnv.PLAN, [d |-> SetToSeq(Pats(F64)), f |-> SetToSeq(Pats(F32)), md |-> SetToSeq(Masks(F64)), mf |-> SetToSeq(Masks(F32))])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
