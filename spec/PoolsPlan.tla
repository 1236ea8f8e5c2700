----------------------------- MODULE PoolsPlan -----------------------------
EXTENDS Pools, Json, IOUtils
Entry(dim, f, k, s) == LET I == Intervals(Fmt(f)) J == I[((k + dim) % Len(I)) + 1] IN
  [dim |-> dim, fmt |-> f, iv |-> k, seed |-> Seeds[s], lo |-> <<I[k].lo, J.lo>>, hi |-> <<I[k].hi, J.hi>>,
   wide |-> <<I[k].wide, J.wide>>, fine |-> <<I[k].fine, J.fine>>, sizes |-> SizesOf(Seeds[s])]
NI == Len(Intervals(F64))
Fms == <<"d", "f">>
\* dim, precision, interval, seed
Plan == [j \in 1..(2 * 2 * NI * Len(Seeds)) |->
           LET a == j - 1 IN
           Entry((a % 2) + 1, Fms[((a \div 2) % 2) + 1], ((a \div 4) % NI) + 1, (a \div (4 * NI)) + 1)]
ASSUME JsonSerialize(IOEnv.PLAN, [keys |-> Plan, prefixes |-> Sizes, spread |-> SpreadSize, bins |-> Bins])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
