------------------------------ MODULE LimbsMC ------------------------------
(* Model-checks the number encodings against plain integers: every pair of   *)
(* small numbers for the limb operators, every pair of patterns of a toy     *)
(* format (one limb: 4 significand bits) for order, neighbours and errors.   *)
EXTENDS IEEE, TLC

\* toy format in one 16-bit limb: sign, 11 exponent bits, 4 significand bits
Toy == [n |-> 1, mb |-> 4, eb |-> 11, bias |-> 1023, top |-> 16]

Nums == {0, 1, 2, 3, 7, 8, 255, 256, 4095, 32767, 32768, 65535, 65536, 65537, 131071, 1048576, 16777215, 1073741822}
VARIABLES a, b, s, ea, eb
Init == \/ a \in Nums /\ b \in Nums /\ s \in 0..20 /\ ea = 0 /\ eb = 0
        \/ a = 0 /\ b = 0 /\ s = 0 /\ ea \in 1020..1026 /\ eb \in 1020..1026
Next == UNCHANGED <<a, b, s, ea, eb>>

La == OfInt(a, 4)
Lb == OfInt(b, 4)
Min2(x, y) == IF x < y THEN x ELSE y

LimbLaws == ea = 0 =>
  /\ ToIntL(La) = a
  /\ CmpL(La, Lb) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ (a <= 536870911 /\ b <= 536870911) => ToIntL(AddL(La, Lb)) = Min2(a + b, HUGE)
  /\ ToIntL(DistL(La, Lb)) = (IF a < b THEN b - a ELSE a - b)
  /\ ToIntL(ShrL(La, s)) = a \div 2^s
  /\ (BitLenInt(a) + s <= 30) => ToIntL(ShlL(La, s)) = a * 2^s
  /\ BitLenL(La) = BitLenInt(a)
  /\ (a > 0) => IncL(DecL(La)) = La
  /\ ShlL(ShrL(La, 16), 16) = [La EXCEPT ![4] = 0]

\* toy patterns with sign, exponent field and 4 fraction bits
Pat(sg, e, m) == << sg * 32768 + e * 16 + m >>
\* value scaled by 2^(1026+4): exact integer for the exponents used here
Val(e, m) == (16 + m) * 2^(e - 1020)
ToyLaws == ea > 0 =>
  \A m1 \in 0..15, m2 \in {0, 1, 7, 8, 15} :
    LET p == Pat(0, ea, m1) q == Pat(0, eb, m2) v == Val(ea, m1) w == Val(eb, m2)
        ref == [k |-> "fin", s |-> 0, e |-> eb - 1023, m |-> ShlL(OfInt(16 + m2, 4), 59)]
        d == IF v > w THEN v - w ELSE w - v
    IN /\ (LtL(KeyOf(Toy, p), KeyOf(Toy, q)) <=> v < w)
       /\ LtL(KeyOf(Toy, NegBits(Toy, p)), KeyOf(Toy, q))
       /\ BitsOfKey(Toy, KeyOf(Toy, NegBits(Toy, p))) = NegBits(Toy, p)
       /\ Succ(Toy, p) = (IF m1 = 15 THEN Pat(0, ea + 1, 0) ELSE Pat(0, ea, m1 + 1))
       /\ Pred(Toy, Succ(Toy, p)) = p
       /\ Enc(Toy, 0, 16 + m1, ea - 1023 - 4) = p
       \* distance in 1/256 ulp of the reference: ulp = 2^(eb-1020) in Val units
       /\ Deviation(Toy, p, ref, -5000, 5000) = (256 * d) \div 2^(eb - 1020)
       /\ Deviation(Toy, NegBits(Toy, p), ref, -5000, 5000) = (256 * (v + w)) \div 2^(eb - 1020)
       \* floor one binade above the reference halves the number
       /\ Deviation(Toy, p, ref, eb - 1023 + 1, 5000) = (256 * d) \div 2^(eb - 1020 + 1)
Kinds ==
  /\ KindOf(Toy, Pat(0, 2047, 0)) = "inf" /\ KindOf(Toy, Pat(1, 2047, 3)) = "nan"
  /\ KindOf(Toy, Pat(1, 0, 0)) = "zero" /\ KindOf(Toy, Pat(0, 0, 5)) = "sub"
  /\ KindOf(F64, <<32752, 0, 0, 1>>) = "nan" /\ KindOf(F32, <<32640, 0>>) = "inf"
  /\ Enc(F64, 0, 5000, 0) = <<16563, 34816, 0, 0>> /\ Enc(F32, 1, 3, -1) = <<49088, 0>>
=============================================================================
