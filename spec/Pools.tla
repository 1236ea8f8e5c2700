------------------------------- MODULE Pools -------------------------------
(* Random pools: requests, and what a pool must satisfy.                     *)
EXTENDS IEEE
Fmt(f) == IF f = "d" THEN F64 ELSE F32
\* closed intervals, as bit patterns of the format; the wide ones have many
\* numbers, the fine ones so many that values hardly ever repeat
MaxFin(F, s) == [i \in 1..F.n |-> IF i = 1 THEN s * 32768 + EMax(F) * F.top - 1 ELSE 65535]
MinNorm(F) == [ZeroL(F.n) EXCEPT ![1] = F.top]
Intervals(F) == <<
  [lo |-> Enc(F, 1, 1, 0),    hi |-> Enc(F, 0, 1, 0),     wide |-> TRUE, fine |-> TRUE],
  [lo |-> Enc(F, 0, 0, 0),    hi |-> Enc(F, 0, 1, 0),     wide |-> TRUE, fine |-> TRUE],
  [lo |-> Enc(F, 1, 3, 0),    hi |-> Enc(F, 0, 1000, 0),  wide |-> TRUE, fine |-> TRUE],
  [lo |-> Enc(F, 0, 1, 0),    hi |-> Enc(F, 0, 1025, -10), wide |-> TRUE, fine |-> F.n = 4],
  [lo |-> Enc(F, 1, 1, 40),   hi |-> Enc(F, 1, 1, -3),    wide |-> TRUE, fine |-> TRUE],
  [lo |-> MaxFin(F, 1),       hi |-> MaxFin(F, 0),        wide |-> TRUE, fine |-> TRUE],
  [lo |-> MinNorm(F),         hi |-> MaxFin(F, 0),        wide |-> TRUE, fine |-> TRUE],
  [lo |-> ZeroL(F.n),         hi |-> OfInt(60000, F.n),   wide |-> TRUE, fine |-> FALSE],
  [lo |-> Enc(F, 0, 3, -1),   hi |-> Enc(F, 0, 3, -1),    wide |-> FALSE, fine |-> FALSE],
  [lo |-> Enc(F, 0, 1, 0),    hi |-> IncL(Enc(F, 0, 1, 0)), wide |-> FALSE, fine |-> FALSE],
  [lo |-> Enc(F, 1, 5000, 0), hi |-> Enc(F, 0, 5000, 0),  wide |-> TRUE, fine |-> TRUE],
  [lo |-> Enc(F, 1, 1, -20),  hi |-> ZeroL(F.n),          wide |-> TRUE, fine |-> TRUE],
  [lo |-> Enc(F, 0, 1, -60),  hi |-> Enc(F, 0, 1, 60),    wide |-> TRUE, fine |-> TRUE] >>
\* seeds, chosen so that truncation to 8 or 16 bits, the absolute value or
\* clearing the low bit would make two of them coincide
Seeds == <<0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 1000003, 2147483647, -1, -2, -256, -65536, -2147483647>>
\* sizes of a pool; every prefix of one of these lengths is compared
Sizes == <<0, 1, 2, 5, 16, 100, 255, 256, 257, 4096, 4097, 65535, 65536, 70000>>
SpreadSize == 4096
Bins == 16
\* 256 values are expected in each bin; the bounds are 7 standard deviations
BinLow == 146
BinHigh == 366
\* values that occurred before: in double precision (53 bits) none are expected
\* among 70,000, in single precision (24 bits) some 300
MostRepeats(F, n) == IF F.n = 4 THEN 2 ELSE 4 + (n \div 64)
SizesOf(seed) == IF seed \in {1, -2} THEN Sizes ELSE <<16, 100, 4096>>
=============================================================================
