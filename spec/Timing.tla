------------------------------- MODULE Timing -------------------------------
(* Clock readings [s, n] (seconds, nanoseconds below 10^9), elapsed time in  *)
(* nanoseconds as limbs, and the accounting of a performance measurement.    *)
EXTENDS Limbs
Giga == 1000000000
\* 4-limb product of a natural number and 10^9
RECURSIVE MulBits(_, _, _, _)
MulBits(a, m, k, acc) == IF m = 0 THEN acc
  ELSE MulBits(a, m \div 2, k + 1, IF m % 2 = 1 THEN Tail(AddL(acc, ShlL(a, k))) ELSE acc)
Nanos(sec) == MulBits(OfInt(sec, 4), Giga, 0, ZeroL(4))
Earlier(r1, r2) == r1.s < r2.s \/ (r1.s = r2.s /\ r1.n <= r2.n)
Elapsed(r1, r2) ==
  LET D == r2.s - r1.s  dn == r2.n - r1.n IN
  IF dn >= 0 THEN Tail(AddL(Nanos(D), OfInt(dn, 4)))
  ELSE Tail(AddL(Nanos(D - 1), OfInt(dn + Giga, 4)))
\* as an ordinary integer, for short intervals
ElapsedInt(r1, r2) == (r2.s - r1.s) * Giga + (r2.n - r1.n)
\* the spread of a list of times (4 limbs): the number of times times the sum of
\* their squares less the square of their sum (8 limbs); divided by R * R * (R - 1)
\* it is the square of the standard error of their mean
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) == IF j > Len(b) THEN ZeroL(8)
  ELSE Tail(AddL(ShlL(MulBits(a, b[j], 0, ZeroL(8)), 16 * (Len(b) - j)), MulFrom(a, b, j + 1)))
MulL(a, b) == MulFrom(ResizeL(a, 8), b, 1)
RECURSIVE SumTimes(_, _), SumSquares(_, _)
SumTimes(q, k) == IF k > Len(q) THEN ZeroL(4) ELSE Tail(AddL(q[k], SumTimes(q, k + 1)))
SumSquares(q, k) == IF k > Len(q) THEN ZeroL(8) ELSE Tail(AddL(MulL(q[k], q[k]), SumSquares(q, k + 1)))
Squares(q) == MulBits(SumSquares(q, 1), Len(q), 0, ZeroL(8))
Spread(q) == LET s == SumTimes(q, 1) IN SubL(Squares(q), MulL(s, s))
\* accumulating squares in double precision loses the last of 53 bits and
\* reporting in single precision all but 24
SpreadNear(v, q) == LET w == Spread(q)
                        tol == AddL(ShrL(w, 20), ShrL(Squares(q), 40))
                    IN  LeqL(DistL(v, w), IncL(Tail(tol)))
=============================================================================
