------------------------------ MODULE Helpers ------------------------------
(* The bit-level helpers under all functions: reinterpreting a number as its *)
(* pattern and back, masking, sign mask, splitting a number into mantissa    *)
(* and exponent, floor.  Everything is defined on patterns (limbs).          *)
EXTENDS IEEE, Bitwise

AndL(a, b) == [i \in DOMAIN a |-> a[i] & b[i]]
OrL(a, b)  == [i \in DOMAIN a |-> a[i] | b[i]]
XorL(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
SignMask(F, a) == [i \in 1..F.n |-> IF i = 1 /\ SignOf(F, a) = 1 THEN 32768 ELSE 0]

\* positive normal numbers: x = Mantissa * 2^(Exponent + 1), Mantissa in [1/2, 1)
Splittable(F, a) == SignOf(F, a) = 0 /\ KindOf(F, a) = "norm"
Mantissa(F, a) == [FracOf(F, a) EXCEPT ![1] = @ + (F.bias - 1) * F.top]
Exponent(F, a) == ExpOf(F, a) - F.bias

\* |x| < 2^30 (2^23 for floats): integer part and whether something is cut off
Floorable(F, a) == KindOf(F, a) \in {"zero", "sub"} \/ (KindOf(F, a) = "norm" /\ Exp2Of(F, a) < (IF F.n = 2 THEN 23 ELSE 30))
Whole(F, a) == LET e == Exp2Of(F, a) IN
  IF e < 0 THEN 0 ELSE ToIntL(IF e >= F.mb THEN ShlL(SigOf(F, a), e - F.mb) ELSE ShrL(SigOf(F, a), F.mb - e))
IsWhole(F, a) == LET e == Exp2Of(F, a) IN
  \/ IsZeroL(MagOf(F, a))
  \/ (e >= 0 /\ (e >= F.mb \/ ShlL(ShrL(SigOf(F, a), F.mb - e), F.mb - e) = SigOf(F, a)))
\* what floor may return; for negative whole numbers (and -0) also one less
Floors(F, a) ==
  LET w == Whole(F, a) IN
  IF SignOf(F, a) = 0 THEN {w} ELSE IF IsWhole(F, a) THEN {-w, -w - 1} ELSE {-w - 1}

Ops == {"bits", "back", "and", "or", "xor", "sign", "split", "floor"}
\* observation: [op, a: argument, m: mask, r: result pattern, k: small integer result]
Right(F, o) ==
  CASE o.op = "bits"  -> o.r = o.a
    [] o.op = "back"  -> o.r = o.a
    [] o.op = "and"   -> o.r = AndL(o.a, o.m)
    [] o.op = "or"    -> o.r = OrL(o.a, o.m)
    [] o.op = "xor"   -> o.r = XorL(o.a, o.m)
    [] o.op = "sign"  -> o.r = SignMask(F, o.a)
    [] o.op = "split" -> Splittable(F, o.a) => (o.r = Mantissa(F, o.a) /\ o.k = Exponent(F, o.a))
    [] o.op = "floor" -> Floorable(F, o.a) => o.k \in Floors(F, o.a)
=============================================================================
