----------------------------- MODULE DiffsPlan -----------------------------
(* Pairs of patterns at distances around every power of two, and all pairs   *)
(* of the special patterns (formed by the driver).                           *)
EXTENDS Diffs, Patterns, Json, IOUtils
Pow(F, k) == [i \in 1..F.n |-> LET j == k - 16 * (F.n - i) IN IF j \in 0..15 THEN 2^j ELSE 0]
Bases(F) == <<ZeroL(F.n), Enc(F, 0, 1, 0), [i \in 1..F.n |-> IF i = 1 THEN 16368 ELSE 43690], [i \in 1..F.n |-> IF i = F.n THEN 65535 ELSE 4660]>>
\* base + 2^k + e for e in -1, 0, 1, where it does not wrap
Far(F, b, k, e) == LET p == IF e = -1 THEN DecL(Pow(F, k)) ELSE IF e = 0 THEN Pow(F, k) ELSE IncL(Pow(F, k)) IN AddL(b, p)
Near(F) == {<<b, Tail(Far(F, Bases(F)[b], k, e))>> : b \in DOMAIN Bases(F), k \in 0..(16 * F.n - 1), e \in {-1, 0, 1}}
Pairs(F) == LET s == SetToSeq(Near(F)) IN [j \in DOMAIN s |-> [a |-> Bases(F)[s[j][1]], b |-> s[j][2]]]
ASSUME JsonSerialize(IOEnv.PLAN, [pd |-> Pairs(F64), pf |-> Pairs(F32), d |-> Patterns(F64), f |-> Patterns(F32)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
