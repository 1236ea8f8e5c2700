----------------------------- MODULE ToolsPlan -----------------------------
(* Sequences of tool invocations.  A step is                                 *)
(*   [op |-> "bench", nick, size (-1: option not given), form]               *)
(*   [op |-> "compare", nick, refs, tests]  with file names                  *)
(*   [op |-> "remove", file]                                                 *)
EXTENDS Tools, Json, IOUtils, TLC
Bench(n, s, form) == [op |-> "bench", nick |-> n, size |-> s, form |-> form]
Compare(n, rs, ts) == [op |-> "compare", nick |-> n, refs |-> rs, tests |-> ts]
Remove(f) == [op |-> "remove", file |-> f]
\* kernels in a fixed order with their compatible pairs (reference, tested)
Kernels == <<"Identity", "Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse", "Atan2">>
FastName(k) == IF k = "Inverse" THEN "Fast_Inv" ELSE IF k = "Identity" THEN "Identity" ELSE "Fast_" \o k
SuffixSeq == <<"", "f", "v", "fv">>
Scalar(s) == IF s = "fv" THEN "f" ELSE IF s = "v" THEN "" ELSE s
Other(s) == IF s = "f" THEN "fv" ELSE IF s = "" THEN "v" ELSE s
\* pairs numbered 0 .. 51, all with different short names
PairNo(x) == LET k == Kernels[(x % 13) + 1] s == SuffixSeq[((x \div 13) % 4) + 1] IN [r |-> k \o s, t |-> FastName(k) \o s]
\* scalar against array form of the fast function
FormKernels == Kernels \o <<"Apr_Isqrt", "Apr_Inv">>
FormNo(x) == LET k == FormKernels[(x % 15) + 1] s == SuffixSeq[((x \div 15) % 4) + 1] IN [r |-> FastName(k) \o s, t |-> FastName(k) \o Other(s)]
RF(n, f) == ResponseFile(n, f)
CompareAll(nick, a, b, xs, P(_)) == Compare(nick, [k \in DOMAIN xs |-> RF(a, P(xs[k]).r)], [k \in DOMAIN xs |-> RF(b, P(xs[k]).t)])
Up == [k \in 1..52 |-> k - 1]
Down == [k \in 1..52 |-> 52 - k]
DownForms == [k \in 1..60 |-> 60 - k]
\* three pairs, each complete or without one or both of its files
Gone == <<"gone.txt", "zz__Exp__response.txt", "no such/file">>
Mask(m, k) == IF k = 1 THEN m % 4 ELSE IF k = 2 THEN (m \div 4) % 4 ELSE m \div 16
Masked(m) == LET X(k) == (m * 5 + (k - 1) * 17) % 52 IN
  Compare("m" \o ToString(m), [k \in 1..3 |-> IF Mask(m, k) \in {1, 3} THEN Gone[((m + k) % 3) + 1] ELSE RF("a", PairNo(X(k)).r)],
                              [k \in 1..3 |-> IF Mask(m, k) \in {2, 3} THEN Gone[((m + k + 1) % 3) + 1] ELSE RF("b", PairNo(X(k)).t)])
MaskScenario == <<Bench("a", 3, "short"), Bench("b", 3, "long")>> \o [m \in 1..64 |-> Masked(m - 1)]
Sizes == IF IOEnv.TIER = "quick" THEN <<1, 2, 7, 64>> ELSE <<1, 2, 3, 7, 8, 16, 64, 100>>
SizeScenario == [k \in 1..Len(Sizes) |-> <<Bench("n", Sizes[k], "long"), CompareAll("up", "n", "n", Up, PairNo)>>]
Nicks == <<"Atan2z", "Fast_n", "x_y", "a__b", "sub/n", "run-1.2", "Double Precision", "Exp", "Atan2/q", "f", "comparison", "__r">>
NickScenario == [k \in 1..Len(Nicks) |->
   <<Bench(Nicks[k], 2, IF k % 2 = 0 THEN "short" ELSE "long"), CompareAll("k" \o ToString(k), Nicks[k], Nicks[k], <<1, 51, 5, 25, 14, 12, 38, 0>>, PairNo),
     CompareAll("K" \o ToString(k), Nicks[k], Nicks[k], <<3, 12, 16, 51>>, FormNo)>>]
\* two pairs of one function in one list: the later one stays
Both(n) == Compare(n, <<RF("a", "Exp"), RF("a", "Fast_Sinf"), RF("a", "Fast_Exp"), "gone", RF("b", "Sinf"), RF("a", "Fast_Inv"), RF("a", "Fast_Apr_Inv")>>,
                      <<RF("a", "Fast_Exp"), RF("b", "Sinf"), RF("b", "Expv"), RF("a", "Exp"), RF("a", "Fast_Sinf"), RF("a", "Inverse"), RF("a", "Inversev")>>)
\* the outcome of earlier invocations is kept, replaced or left alone
Again == <<Bench("a", 7, "short"), CompareAll("k", "a", "a", Up, PairNo), CompareAll("k2", "a", "a", DownForms, FormNo), Bench("b", 7, "short"),
           CompareAll("ab", "a", "b", Down, PairNo), Bench("a", 3, "short"), CompareAll("k", "a", "a", Up, PairNo), Bench("a", 64, "short"),
           Remove(RF("a", "Fast_Cosf")), Remove(RF("a", "Atan2")), CompareAll("k", "a", "a", Up, PairNo), Bench("a", 7, "long"),
           CompareAll("ba", "b", "a", Up, PairNo), Both("c"), Both("c")>>
DefaultSize == <<Bench("d", -1, "short"), Bench("e", -1, "long")>>
\* random walks: one nickname, so that the files of a comparison fit together
RECURSIVE Walk(_, _)
RandomCompare(z) == LET from == RandomElement(0..51) step == RandomElement({1, 3, 5, 7, 9, 11, 15, 17}) n == RandomElement(1..12) form == RandomElement(BOOLEAN)
                        xs == TLCEval([k \in 1..n |-> (from + k * step) % (IF form THEN 60 ELSE 52)])
                        miss == TLCEval([k \in 1..n |-> RandomElement(0..9)]) IN
  Compare("w" \o ToString(RandomElement(1..2)),
          [k \in 1..n |-> IF miss[k] = 0 THEN "gone" ELSE RF("w", IF form THEN FormNo(xs[k]).r ELSE PairNo(xs[k]).r)],
          [k \in 1..n |-> IF miss[k] = 1 THEN "gone" ELSE RF("w", IF form THEN FormNo(xs[k]).t ELSE PairNo(xs[k]).t)])
RandomStep(z) == LET d == RandomElement(0..9) IN
  IF d = 0 THEN Bench("w", RandomElement(1..9), "short") ELSE IF d < 4 THEN Remove(RF("w", RandomElement(Benched).name)) ELSE RandomCompare(z)
Walk(n, acc) == IF n = 0 THEN acc ELSE Walk(n - 1, Append(acc, TLCEval(RandomStep(n))))
Walks == LET n == IF IOEnv.TIER = "quick" THEN 4 ELSE 24 IN [k \in 1..n |-> Walk(24, <<Bench("w", RandomElement(1..9), "short")>>)]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
PatternSeq == ToSeq(PatternSet)
ASSUME \A x, y \in 0..51 : x # y => Short(PairNo(x).r) # Short(PairNo(y).r)
ASSUME \A x \in 0..51 : PairNo(x).r \in {f.name : f \in Benched} /\ PairNo(x).t \in {f.name : f \in Benched}
ASSUME \A x \in 0..59 : FormNo(x).r \in {f.name : f \in Benched} /\ FormNo(x).t \in {f.name : f \in Benched}
ASSUME JsonSerialize(IOEnv.PLAN, [scenarios |-> <<MaskScenario, Again, DefaultSize>> \o SizeScenario \o NickScenario \o Walks,
                                  patterns |-> [k \in DOMAIN PatternSeq |-> [p |-> PatternSeq[k], text |-> Text(PatternSeq[k])]],
                                  benched |-> ToSeq(Benched), timed |-> ToSeq(Timed)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
