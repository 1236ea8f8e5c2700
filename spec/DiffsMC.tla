------------------------------ MODULE DiffsMC ------------------------------
(* The difference over all pairs of 2-digit patterns of a small machine and  *)
(* the running moments against the definitions.  A walk appends differences  *)
(* to a list; the implementation keeps sum, sum of squares, minimum, maximum.*)
EXTENDS Diffs
CONSTANTS MaxLen, Variant     \* "right"; "either" (a value is taken as minimum or else as maximum) and "zero" (minimum starts at 0) must be rejected
VARIABLES d, s, s2, mn, mx
vars == <<d, s, s2, mn, mx>>
Vals == {0, 1, 3, 64}
Init == d = <<>> /\ s = 0 /\ s2 = 0 /\ mn = (IF Variant = "zero" THEN 0 ELSE 255) /\ mx = 0
Add(x) == /\ Len(d) < MaxLen /\ d' = Append(d, x) /\ s' = s + x /\ s2' = s2 + x * x
          /\ mn' = (IF x < mn THEN x ELSE mn) /\ mx' = (IF x > mx /\ ~(Variant = "either" /\ x < mn) THEN x ELSE mx)
Next == \E x \in Vals : Add(x)
Spec == Init /\ [][Next]_vars
Moments == s = Sum(d) /\ s2 = Sum2(d)
Extremes == d # <<>> => mn = MinOf(d) /\ mx = MaxOf(d)
Differs == (mx > 0) = (\E k \in DOMAIN d : d[k] # 0)
\* the variance of the definition: sum of squared deviations, times n
RECURSIVE Dev(_, _)
Dev(e, k) == IF k > Len(e) THEN 0 ELSE (Len(e) * e[k] - Sum(e)) * (Len(e) * e[k] - Sum(e)) + Dev(e, k + 1)
Variance == Len(d) * VarNum(d) = Dev(d, 1) /\ VarNum(d) >= 0 /\ VarLimbs(Len(d), s, s2) = OfInt(VarNum(d), 4)
\* symmetry, identity, and the number of bits, over limbs in a small range
Small == {<<a, b>> : a \in {0, 1, 2, 32768, 65535}, b \in {0, 1, 2, 3, 4, 7, 8, 255, 256, 32767, 32768, 65534, 65535}}
ASSUME \A a, b \in Small : Diff(a, b) = Diff(b, a) /\ (Diff(a, b) = 0) = (a = b)
ASSUME \A a \in 0..300, b \in 0..300 : LET x == IF a > b THEN a - b ELSE b - a n == Diff(<<0, a>>, <<0, b>>) IN
         IF x = 0 THEN n = 0 ELSE 2^(n - 1) <= x /\ x < 2^n
ASSUME \A k \in 0..30 : Diff(<<0, 0>>, OfInt(2^k, 2)) = k + 1 /\ (k > 0 => Diff(<<0, 0>>, OfInt(2^k - 1, 2)) = k)
=============================================================================
