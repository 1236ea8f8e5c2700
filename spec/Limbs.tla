------------------------------- MODULE Limbs -------------------------------
(* Natural numbers wider than TLC's 32-bit integers, as big-endian          *)
(* sequences of 16-bit limbs.  All operators are length-generic; binary     *)
(* operators expect operands of equal length.                               *)
EXTENDS Integers, Sequences

LB == 65536

Pow2Small == [i \in 0..30 |-> 2^i]

IsLimbs(a) == \A i \in DOMAIN a : a[i] \in 0..(LB - 1)

ZeroL(n) == [i \in 1..n |-> 0]

\* -1, 0, 1 : lexicographic comparison
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpFrom(a, b, i + 1)
CmpL(a, b) == CmpFrom(a, b, 1)
LeqL(a, b) == CmpL(a, b) <= 0
LtL(a, b)  == CmpL(a, b) < 0

\* pad / cut on the left to n limbs (cutting is only done when the cut limbs are 0)
ResizeL(a, n) ==
  [i \in 1..n |-> LET j == i - (n - Len(a)) IN IF j >= 1 THEN a[j] ELSE 0]

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==
  IF i = 0 THEN <<carry>> \o acc
  ELSE LET s == a[i] + b[i] + carry
       IN AddFrom(a, b, i - 1, s \div LB, <<s % LB>> \o acc)
\* sum, one limb longer than the operands
AddL(a, b) == AddFrom(a, b, Len(a), 0, <<>>)

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i = 0 THEN acc
  ELSE LET s == a[i] - b[i] - borrow
       IN IF s < 0 THEN SubFrom(a, b, i - 1, 1, <<s + LB>> \o acc)
                   ELSE SubFrom(a, b, i - 1, 0, <<s>> \o acc)
\* a - b for a >= b
SubL(a, b) == SubFrom(a, b, Len(a), 0, <<>>)

DistL(a, b) == IF LeqL(a, b) THEN SubL(b, a) ELSE SubL(a, b)

OneL(n) == [i \in 1..n |-> IF i = n THEN 1 ELSE 0]
IncL(a) == Tail(AddL(a, OneL(Len(a))))
DecL(a) == SubL(a, OneL(Len(a)))

\* floor(a / 2^n), same length
ShrL(a, n) ==
  LET k == n \div 16
      r == n % 16
      At(j) == IF j >= 1 THEN a[j] ELSE 0
  IN [i \in 1..Len(a) |->
        IF k >= Len(a) THEN 0
        ELSE (At(i - k) \div Pow2Small[r])
             + (IF r = 0 THEN 0
                ELSE (At(i - k - 1) % Pow2Small[r]) * Pow2Small[16 - r])]

\* a * 2^n modulo 2^(16 Len(a))
ShlL(a, n) ==
  LET k == n \div 16
      r == n % 16
      At(j) == IF j <= Len(a) THEN a[j] ELSE 0
  IN [i \in 1..Len(a) |->
        IF k >= Len(a) THEN 0
        ELSE ((At(i + k) * Pow2Small[r]) % LB)
             + (IF r = 0 THEN 0 ELSE At(i + k + 1) \div Pow2Small[16 - r])]

RECURSIVE BitLenInt(_)
BitLenInt(v) == IF v = 0 THEN 0 ELSE 1 + BitLenInt(v \div 2)

RECURSIVE BitLenFrom(_, _)
BitLenFrom(a, i) ==
  IF i > Len(a) THEN 0
  ELSE IF a[i] # 0 THEN BitLenInt(a[i]) + 16 * (Len(a) - i)
  ELSE BitLenFrom(a, i + 1)
\* number of significant bits, 0 for zero
BitLenL(a) == BitLenFrom(a, 1)

IsZeroL(a) == \A i \in DOMAIN a : a[i] = 0

\* saturating conversion to an ordinary integer
HUGE == 1073741823
ToIntL(a) ==
  LET n == Len(a) IN
  IF \E i \in 1..(n - 2) : a[i] # 0 THEN HUGE
  ELSE IF n >= 2 /\ a[n - 1] >= 16384 THEN HUGE
  ELSE (IF n >= 2 THEN a[n - 1] * LB ELSE 0) + a[n]

\* the natural number v (an ordinary integer) as n limbs
RECURSIVE OfInt(_, _)
OfInt(v, n) == IF n = 0 THEN <<>> ELSE OfInt(v \div LB, n - 1) \o <<v % LB>>
=============================================================================
