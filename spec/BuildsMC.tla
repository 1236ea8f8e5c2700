------------------------------ MODULE BuildsMC ------------------------------
(* Why strict builds agree and fused builds stay within bounds: a machine    *)
(* that evaluates (c2*x + c1)*x + c0 step by step with every operation       *)
(* rounded to P bits, against one that may fuse each multiply and add.       *)
(* Values are integers in units of 2^-S.  A schedule decides, step by step   *)
(* and per lane, which lane proceeds next (that is all that optimisation and *)
(* vector width can change) and, with contraction, which pairs are fused.    *)
EXTENDS Integers, Sequences
CONSTANT Contract
Coeffs == {-7, -3, 1, 5}
Xs == {-5, -1, 3, 7}
P == 4
S == 6                                   \* x and coefficients carry 2^-3 each
Abs(v) == IF v < 0 THEN 0 - v ELSE v
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
\* round to nearest, ties to even, keeping P significant bits
Round(v) == LET a == Abs(v) k == BitLen(a) IN
            IF k <= P THEN v
            ELSE LET q == Pow2(k - P) d == a \div q r == a % q
                     up == IF 2 * r > q \/ (2 * r = q /\ d % 2 = 1) THEN 1 ELSE 0
                     m == (d + up) * q
                 IN IF v < 0 THEN 0 - m ELSE m
Lanes == {1, 2}
VARIABLES x, c, pc, acc, exact
vars == <<x, c, pc, acc, exact>>
Cs == {<<a, b, d>> : a \in Coeffs, b \in Coeffs, d \in Coeffs}
Init == /\ x \in [Lanes -> Xs] /\ c \in Cs
        /\ pc = [l \in Lanes |-> 1]
        /\ acc = [l \in Lanes |-> c[1]] /\ exact = [l \in Lanes |-> c[1]]
\* scale: acc at step k has unit 2^-(3k); the coefficient is lifted to it
Lift(v, k) == v * Pow2(3 * k)
Plain(l) == /\ pc[l] <= 2
            /\ acc' = [acc EXCEPT ![l] = Round(Round(@ * x[l]) + Lift(c[pc[l] + 1], pc[l]))]
            /\ exact' = [exact EXCEPT ![l] = @ * x[l] + Lift(c[pc[l] + 1], pc[l])]
            /\ pc' = [pc EXCEPT ![l] = @ + 1] /\ UNCHANGED <<x, c>>
Fused(l) == /\ Contract /\ pc[l] <= 2
            /\ acc' = [acc EXCEPT ![l] = Round(@ * x[l] + Lift(c[pc[l] + 1], pc[l]))]
            /\ exact' = [exact EXCEPT ![l] = @ * x[l] + Lift(c[pc[l] + 1], pc[l])]
            /\ pc' = [pc EXCEPT ![l] = @ + 1] /\ UNCHANGED <<x, c>>
Next == \E l \in Lanes : Plain(l) \/ Fused(l)
Spec == Init /\ [][Next]_vars
Strictly(l) == LET a == Round(Round(c[1] * x[l]) + Lift(c[2], 1)) IN Round(Round(a * x[l]) + Lift(c[3], 2))
Agree == \A l \in Lanes : (pc[l] = 3 /\ ~Contract) => acc[l] = Strictly(l)
\* the sum of the magnitudes of the terms bounds the rounding errors: each of
\* the at most four roundings contributes at most half a unit of the last place
Mag(l) == Abs(c[1] * x[l] * x[l]) + Abs(Lift(c[2] * x[l], 1)) + Abs(Lift(c[3], 2))
Bounded == \A l \in Lanes : pc[l] = 3 => Abs(acc[l] - exact[l]) * Pow2(P) <= 5 * Mag(l)
\* (reachable on purpose) contraction does change bits somewhere
SameAsStrict == \A l \in Lanes : pc[l] = 3 => acc[l] = Strictly(l)
=============================================================================
