------------------------------- MODULE Arrays -------------------------------
(* The array functions: their names, what a call means for the memory it is  *)
(* given, and the calls the implementation is driven through.                *)
EXTENDS IEEE, FiniteSets, TLC

Libm   == <<"acos", "asin", "atan", "atan2", "cos", "exp", "log", "sin", "tan", "tanh">>
Others == <<"identity", "identity2D", "inv", "isqrt",
            "fast_acos", "fast_asin", "fast_atan", "fast_atan2", "fast_cos", "fast_exp", "fast_log",
            "fast_sin", "fast_tan", "fast_tanh", "fast_inv", "fast_isqrt",
            "fast_approx_inv", "fast_approx_isqrt">>
Bases == Libm \o Others
\* array function names: base name, "f" for float, "v"
ArrayNames == [i \in 1..(2 * Len(Bases)) |->
                 IF i <= Len(Bases) THEN [base |-> Bases[i], fmt |-> "d", name |-> Bases[i] \o "v"]
                 ELSE [base |-> Bases[i - Len(Bases)], fmt |-> "f", name |-> Bases[i - Len(Bases)] \o "fv"]]
Arity(base) == IF base \in {"atan2", "fast_atan2", "identity2D"} THEN 2 ELSE 1

\* lengths driven through the implementation; off: distances (in elements) of
\* the arrays from a 64-byte boundary, as <<input, output>>
AllOffs  == [i \in 1..16 |-> <<(i - 1) \div 4, (i - 1) % 4>>]
SomeOffs == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<3, 2>>, <<7, 15>>, <<5, 5>> >>
Dense(tier) == IF tier = "quick" THEN 40 ELSE 130
LastN(tier)  == IF tier = "quick" THEN 140 ELSE 700
Special == <<1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073>>
Huge(tier) == <<16777215, 16777219>>
Calls(tier) ==
  [n \in 1..(LastN(tier) + 1) |-> [n |-> n - 1, offs |-> IF n - 1 <= Dense(tier) THEN AllOffs ELSE SomeOffs]]
  \o [i \in DOMAIN Special |-> [n |-> Special[i], offs |-> << <<0, 0>>, <<1, 3>> >>]]
  \o [i \in DOMAIN Huge(tier) |-> [n |-> Huge(tier)[i], offs |-> << <<0, 0>> >>]]

\* a length beyond 2^31, as limbs (too wide for the checker's integers)
GiantN == <<32784, 5>>
\* the functions driven with it: in the quick tier the cheap ones of each shape
Cheap == {"identity", "identity2D", "inv", "fast_inv", "fast_approx_inv", "fast_approx_isqrt"}
GiantNames(tier) == SelectSeq(ArrayNames, LAMBDA e : tier # "quick" \/ e.base \in Cheap)

\* footprint calls: array ends at ("hi") or starts at ("lo") an inaccessible page
FootLast(tier) == IF tier = "quick" THEN 140 ELSE 600
FootCalls(tier) ==
  [i \in 1..(2 * (FootLast(tier) + 1)) |-> [n |-> (i - 1) \div 2, place |-> IF i % 2 = 1 THEN "hi" ELSE "lo"]]
  \o << [n |-> 4096, place |-> "hi"], [n |-> 4097, place |-> "lo"], [n |-> 65536, place |-> "hi"],
        [n |-> 65537, place |-> "lo"], [n |-> 100003, place |-> "hi"] >>

\* identical results: same bits, any NaN standing for any NaN
SameBits(F, a, b) == a = b \/ (IsNaN(F, a) /\ IsNaN(F, b))
=============================================================================
