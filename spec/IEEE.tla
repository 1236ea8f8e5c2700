-------------------------------- MODULE IEEE --------------------------------
(* Binary floating-point formats over limb-encoded bit patterns.            *)
(* A format is a record: width in limbs, significand bits (without the      *)
(* hidden one), exponent bits, bias.                                        *)
EXTENDS Limbs

F64 == [n |-> 4, mb |-> 52, eb |-> 11, bias |-> 1023, top |-> 16]
F32 == [n |-> 2, mb |-> 23, eb |-> 8,  bias |-> 127,  top |-> 128]
\* top: weight of the lowest exponent bit inside the leading limb

EMax(F) == 2^F.eb - 1

SignOf(F, b) == IF b[1] >= 32768 THEN 1 ELSE 0
MagOf(F, b)  == [b EXCEPT ![1] = @ % 32768]
ExpOf(F, b)  == (b[1] % 32768) \div F.top
FracOf(F, b) == [b EXCEPT ![1] = @ % F.top]

KindOf(F, b) ==
  LET e == ExpOf(F, b) IN
  IF e = EMax(F) THEN (IF IsZeroL(FracOf(F, b)) THEN "inf" ELSE "nan")
  ELSE IF IsZeroL(MagOf(F, b)) THEN "zero"
  ELSE IF e = 0 THEN "sub"
  ELSE "norm"

IsNaN(F, b)    == KindOf(F, b) = "nan"
IsInf(F, b)    == KindOf(F, b) = "inf"
IsFinite(F, b) == ExpOf(F, b) # EMax(F)

\* significand with the hidden bit, as 4 limbs; value = Sig * 2^(Exp2 - mb)
SigOf(F, b) ==
  LET f == FracOf(F, b) IN
  ResizeL(IF ExpOf(F, b) = 0 THEN f ELSE [f EXCEPT ![1] = @ + F.top], 4)
Exp2Of(F, b) == (IF ExpOf(F, b) = 0 THEN 1 ELSE ExpOf(F, b)) - F.bias

\* order-preserving key of a pattern: -inf .. -0 < +0 .. +inf
KeyOf(F, b) ==
  IF b[1] >= 32768 THEN [i \in DOMAIN b |-> 65535 - b[i]]
  ELSE [b EXCEPT ![1] = @ + 32768]
BitsOfKey(F, k) ==
  IF k[1] >= 32768 THEN [k EXCEPT ![1] = @ - 32768]
  ELSE [i \in DOMAIN k |-> 65535 - k[i]]

NegBits(F, b) == [b EXCEPT ![1] = IF @ >= 32768 THEN @ - 32768 ELSE @ + 32768]

\* numerically equal (both zeros are equal, NaN equals nothing)
NumEq(F, a, b) ==
  /\ ~IsNaN(F, a) /\ ~IsNaN(F, b)
  /\ \/ a = b
     \/ KindOf(F, a) = "zero" /\ KindOf(F, b) = "zero"
\* the same result as far as a user can tell apart values: any NaN is the NaN
SameValue(F, a, b) == NumEq(F, a, b) \/ (IsNaN(F, a) /\ IsNaN(F, b))
NumLeq(F, a, b) ==
  /\ ~IsNaN(F, a) /\ ~IsNaN(F, b)
  /\ (NumEq(F, a, b) \/ LtL(KeyOf(F, a), KeyOf(F, b)))

\* the pattern of m * 2^e (sign s) for an integer m in 1..2^24-1 that is exactly
\* representable as a normal number
Enc(F, s, m, e) ==
  IF m = 0 THEN [i \in 1..F.n |-> IF i = 1 THEN s * 32768 ELSE 0]
  ELSE
  LET bl   == BitLenInt(m)
      E    == e + bl - 1 + F.bias
      frac == ShlL(OfInt(m, 4), F.mb - (bl - 1))           \* hidden bit still there
      body == [i \in 1..F.n |-> frac[i + 4 - F.n]]
  IN [body EXCEPT ![1] = (@ % F.top) + E * F.top + s * 32768]

MaxFinite(F, s) == [i \in 1..F.n |-> IF i = 1 THEN (EMax(F) * F.top - 1) + s * 32768 ELSE 65535]
InfBits(F, s)   == [i \in 1..F.n |-> IF i = 1 THEN EMax(F) * F.top + s * 32768 ELSE 0]
MinNormal(F, s) == Enc(F, s, 1, 1 - F.bias)
MinSub(F, s)    == [i \in 1..F.n |-> IF i = F.n THEN 1 + (IF F.n = 1 THEN s * 32768 ELSE 0)
                                     ELSE IF i = 1 THEN s * 32768 ELSE 0]
ZeroBits(F, s)  == [i \in 1..F.n |-> IF i = 1 THEN s * 32768 ELSE 0]
Succ(F, b)      == BitsOfKey(F, IncL(KeyOf(F, b)))
Pred(F, b)      == BitsOfKey(F, DecL(KeyOf(F, b)))

-----------------------------------------------------------------------------
(* Deviation of a computed result (bit pattern y, format F) from a reference *)
(* value r = [k: kind, s: sign, e: exponent, m: 64-bit significand], value   *)
(* m * 2^(e-63), in units of 1/256 of the quantum.  The quantum is one unit  *)
(* in the last place of the reference, except that references smaller than   *)
(* 2^floor count as 2^floor and that above 2^ceil the quantum grows with the *)
(* square of the reference.                                                  *)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

QuantumExp(F, r, floor, ceil) ==
  LET e == MaxI(IF r.k = "zero" THEN 1 - F.bias ELSE MaxI(r.e, 1 - F.bias), floor)
  IN e + MaxI(0, e - ceil)

\* integer part of |v| in units of 2^u, 6 limbs, saturating
ScaleTo(m, shift) ==   \* m: 4 limbs
  LET w == ResizeL(m, 6) IN
  IF shift >= 32 THEN (IF IsZeroL(m) THEN w ELSE [i \in 1..6 |-> 65535])
  ELSE IF shift >= 0 THEN ShlL(w, shift)
  ELSE IF shift <= -96 THEN ZeroL(6)
  ELSE ShrL(w, -shift)

Deviation(F, y, r, floor, ceil) ==
  IF ~IsFinite(F, y) \/ r.k \in {"nan", "inf"} THEN HUGE
  ELSE
  LET eq == QuantumExp(F, r, floor, ceil)
      a  == ScaleTo(SigOf(F, y), Exp2Of(F, y) - eq + 8)
      b  == IF r.k = "zero" THEN ZeroL(6) ELSE ScaleTo(r.m, r.e - 63 - (eq - F.mb - 8))
      same == SignOf(F, y) = r.s
  IN ToIntL(IF same THEN DistL(a, b) ELSE AddL(a, b))
=============================================================================
