------------------------------- MODULE Diffs -------------------------------
(* The bit difference of two patterns and the statistics of a list of them.  *)
EXTENDS Limbs
Diff(a, b) == BitLenL(DistL(a, b))
RECURSIVE SumFrom(_, _, _)
SumFrom(d, k, acc) == IF k > Len(d) THEN acc ELSE SumFrom(d, k + 1, acc + d[k])
Sum(d) == SumFrom(d, 1, 0)
RECURSIVE Sum2From(_, _, _)
Sum2From(d, k, acc) == IF k > Len(d) THEN acc ELSE Sum2From(d, k + 1, acc + d[k] * d[k])
Sum2(d) == Sum2From(d, 1, 0)
RangeOf(d) == {d[k] : k \in DOMAIN d}
MaxOf(d) == CHOOSE x \in RangeOf(d) : \A y \in RangeOf(d) : y <= x
MinOf(d) == CHOOSE x \in RangeOf(d) : \A y \in RangeOf(d) : x <= y
RECURSIVE Times(_, _, _, _)
Times(a, m, k, acc) == IF m = 0 THEN acc ELSE Times(a, m \div 2, k + 1, IF m % 2 = 1 THEN Tail(AddL(acc, ShlL(a, k))) ELSE acc)
Product(x, y) == Times(OfInt(x, 4), y, 0, ZeroL(4))
\* the same from the number, sum and sum of squares, as limbs for long lists
VarLimbs(n, s, s2) == SubL(Product(s2, n), Product(s, s))
\* sample variance times n (n - 1), an integer
VarNum(d) == Len(d) * Sum2(d) - Sum(d) * Sum(d)
=============================================================================
