------------------------------- MODULE Atan2 -------------------------------
(* Two-argument arctangent: the cells its argument plane is cut into, and    *)
(* what may be observed in each.  A cell is a quadrant (signs of y and x)    *)
(* and a range of differences of the binary exponents of y and x, or one of  *)
(* the special sets "axis" (one or both arguments zero) and "sub" (at least  *)
(* one subnormal argument).                                                  *)
EXTENDS Contract, TLC

Bound2(F) == IF IsD(F) THEN Ulps(3) ELSE Ulps(6)

\* largest difference of the exponents of two normal numbers
Span(F) == EMax(F) - 2

RECURSIVE Outer(_, _, _)
Outer(lo, hi, w) == IF lo > hi THEN <<>> ELSE << <<lo, MinI(lo + w - 1, hi)>> >> \o Outer(lo + w, hi, w)
Buckets(F) == Outer(-Span(F), -67, 64) \o Outer(-66, 66, 1) \o Outer(67, Span(F), 64)

Cells(F, mode) ==
  (LET b == TLCEval(Buckets(F)) IN
   [i \in DOMAIN b |-> [k |-> "quad", lo |-> b[i][1], hi |-> b[i][2]]])
  \o (IF mode = "parity" THEN <<>> ELSE << [k |-> "axis", lo |-> 0, hi |-> 0] >>)
  \o (IF mode = "acc"    THEN <<>> ELSE << [k |-> "sub",  lo |-> 0, hi |-> 0] >>)

IsZ(F, b) == KindOf(F, b) = "zero"
InCell(F, c, sy, sx, y, x) ==
  /\ IsFinite(F, y) /\ IsFinite(F, x)
  /\ CASE c.k = "quad" -> /\ SignOf(F, y) = sy /\ SignOf(F, x) = sx
                          /\ KindOf(F, y) = "norm" /\ KindOf(F, x) = "norm"
                          /\ ExpOf(F, y) - ExpOf(F, x) \in c.lo..c.hi
       [] c.k = "axis" -> /\ SignOf(F, y) = sy /\ SignOf(F, x) = sx
                          /\ IsZ(F, y) \/ IsZ(F, x)
       [] c.k = "sub"  -> KindOf(F, y) = "sub" \/ KindOf(F, x) = "sub"

CloseTo(F, r, p) == IsFinite(F, r) /\ 256 * ToIntL(DistL(MagOf(F, r), p)) <= Bound2(F)
\* on the axes a zero counts as zero whatever its sign
OnAxis(F, y, x, r) ==
  IF IsZ(F, y)
  THEN IF IsZ(F, x) \/ SignOf(F, x) = 0 THEN IsZ(F, r) ELSE CloseTo(F, r, Pi(F))
  ELSE CloseTo(F, r, PiO2(F)) /\ SignOf(F, r) = SignOf(F, y)
\* -0 / +0 in x with y = 0 is the origin
=============================================================================
