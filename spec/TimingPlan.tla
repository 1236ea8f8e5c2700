----------------------------- MODULE TimingPlan -----------------------------
EXTENDS Timing, Json, IOUtils, SequencesExt, TLC
Ns == {0, 1, 499999999, 500000000, 999999998, 999999999}
Ds == {0, 1, 2, 3, 4, 5, 17, 60, 3600, 86400, 1000000, 2147480000}
Pairs == SetToSeq({<<[s |-> b, n |-> x], [s |-> b + d, n |-> y]>> : b \in {0, 1, 3600}, d \in Ds, x \in Ns, y \in Ns})
Ordered == SelectSeq(Pairs, LAMBDA p : Earlier(p[1], p[2]))
Add(r, d) == IF r.n + d.n >= Giga THEN [s |-> r.s + d.s + 1, n |-> (r.n + d.n) - Giga] ELSE [s |-> r.s + d.s, n |-> r.n + d.n]
\* short steps; every third measurement also has steps of seconds to an hour
Short == [s : {0}, n : {0, 1, 2, 17, 999, 1000, 123456, 9999999, 60000000}]
Long == Short \cup [s : {0, 1, 2, 3, 60, 3600}, n : {0, 300000000, 999999999}]
RECURSIVE Walk(_, _, _)
Walk(r, k, I) == IF k = 0 THEN <<>> ELSE LET x == Add(r, RandomElement(I)) IN <<x>> \o Walk(x, k - 1, I)
Kinds == <<"s1", "s2", "a1", "a2">>
Cases == IF IOEnv.TIER = "quick" THEN 200 ELSE 2000
Runs == [j \in 1..Cases |->
  LET reps == RandomElement(1..6) IN
  [kind |-> Kinds[(j % 4) + 1], fmt |-> IF (j \div 4) % 2 = 0 THEN "d" ELSE "f", n |-> RandomElement({1, 2, 3, 5, 16, 33}), reps |-> reps,
   readings |-> Walk([s |-> RandomElement({0, 7, 100000}), n |-> RandomElement({0, 999999000, 999999999, 950000000})], 4 * reps, IF j % 3 = 0 THEN Long ELSE Short)]]
\* more than 2^32 evaluations in all timed repetitions
Bigs == [j \in 1..4 |-> [kind |-> Kinds[j], fmt |-> IF j % 2 = 0 THEN "f" ELSE "d", n |-> 16384, reps |-> 262145, dt |-> 60001 + 10000 * j]]
ASSUME JsonSerialize(IOEnv.PLAN, [pairs |-> Ordered, runs |-> Runs, bigs |-> Bigs])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
