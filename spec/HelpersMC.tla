----------------------------- MODULE HelpersMC -----------------------------
(* A number travels through the helpers: taken apart into sign, mantissa and *)
(* exponent and put together again; floored and compared with the definition *)
(* of the floor.  All numbers of a toy format with 4 significand bits and of *)
(* binary32 with few fraction bits.  Mode "trunc" cuts off instead.          *)
EXTENDS Helpers, TLC
CONSTANT Mode
Toy == [n |-> 1, mb |-> 4, eb |-> 11, bias |-> 1023, top |-> 16]
Pats == {<<s * 32768 + e * 16 + m>> : s \in {0, 1}, e \in {0, 1, 2, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 2045, 2046, 2047}, m \in 0..15}
VARIABLES x, pc, mant, ex, sg, fl
vars == <<x, pc, mant, ex, sg, fl>>
Init == x \in Pats /\ pc = "whole" /\ mant = <<0>> /\ ex = 0 /\ sg = <<0>> /\ fl = 0
Split == /\ pc = "whole" /\ KindOf(Toy, x) = "norm" /\ pc' = "split"
         /\ sg' = SignMask(Toy, x) /\ mant' = Mantissa(Toy, MagOf(Toy, x)) /\ ex' = Exponent(Toy, MagOf(Toy, x)) /\ UNCHANGED <<x, fl>>
Join == /\ pc = "split" /\ pc' = "joined" /\ mant' = OrL([mant EXCEPT ![1] = (@ % 16) + (ex + 1023) * 16], sg) /\ UNCHANGED <<x, ex, sg, fl>>
Floor == /\ pc = "whole" /\ Floorable(Toy, x) /\ pc' = "floored" /\ UNCHANGED <<x, mant, ex, sg>>
         /\ fl' \in (IF Mode = "trunc" THEN {IF SignOf(Toy, x) = 0 THEN Whole(Toy, x) ELSE -Whole(Toy, x)} ELSE Floors(Toy, x))
Next == Split \/ Join \/ Floor
Spec == Init /\ [][Next]_vars
InUnit == pc = "split" => (KindOf(Toy, mant) = "norm" /\ Exp2Of(Toy, mant) = -1)
Restored == pc = "joined" => mant = x
\* 2^8 x as an integer (the exponents used are at least -4, with 4 significand bits)
Scaled == LET v == IF Exp2Of(Toy, x) < -4 THEN 0 ELSE ToIntL(ShlL(SigOf(Toy, x), Exp2Of(Toy, x) + 4)) IN IF SignOf(Toy, x) = 1 THEN -v ELSE v
Tiny == Exp2Of(Toy, x) < -4
IsFloor == pc = "floored" =>
  \/ Tiny /\ fl \in (IF SignOf(Toy, x) = 0 THEN {0} ELSE {-1, 0} \cap (IF IsZeroL(MagOf(Toy, x)) THEN {-1, 0} ELSE {-1}))
  \/ ~Tiny /\ fl * 256 <= Scaled /\ Scaled < (fl + 1) * 256
  \/ ~Tiny /\ Scaled <= 0 /\ SignOf(Toy, x) = 1 /\ (fl + 1) * 256 = Scaled
ASSUME \A a, b \in {0, 1, 21845, 43690, 65535} :
  /\ XorL(XorL(<<a>>, <<b>>), <<b>>) = <<a>> /\ OrL(AndL(<<a>>, <<b>>), XorL(<<a>>, <<b>>)) = OrL(<<a>>, <<b>>)
  /\ AndL(<<a, b>>, <<65535, 0>>) = <<a, 0>>
=============================================================================
