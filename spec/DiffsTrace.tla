----------------------------- MODULE DiffsTrace -----------------------------
(* Validates recorded differences and comparisons.                           *)
(* kind "pair": obs holds [a, b, d, r] (difference, difference swapped).     *)
(* kind "cmp": rows [a, b, d] and the statistics as written: max, min, the   *)
(* mean times the number of rows and the variance times n (n - 1), each as   *)
(* nearest integer and remaining error in millionths (for long lists the     *)
(* former as limbs in wide); whether the comparison says it has a            *)
(* difference; and what the printed statistics show.                         *)
EXTENDS Diffs, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, acc, verdict
vars == <<t, i, acc, verdict>>
T == Traces[t]
Zero == [s |-> 0, s2 |-> 0, mn |-> 255, mx |-> 0, ok |-> TRUE]
Init == t \in DOMAIN Traces /\ i = 1 /\ acc = Zero /\ verdict = "ok"
N == IF T.kind = "pair" THEN Len(T.obs) ELSE Len(T.rows)
Chunk == IF N > 50 THEN 25 ELSE 1
End == IF i + Chunk > N THEN N ELSE i + Chunk - 1
Pair == /\ T.kind = "pair" /\ verdict = "ok" /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<t, acc>>
        /\ verdict' = LET o == T.obs[i] w == Diff(o.a, o.b) IN
                      IF o.d # w THEN "the difference is not the number of significant bits of the distance"
                      ELSE IF o.r # w THEN "the difference changes when the numbers are swapped"
                      ELSE "ok"
\* rows i..End: the running moments of the true differences
RECURSIVE Run(_, _, _)
Run(k, last, a) ==
  IF k > last THEN a
  ELSE LET d == Diff(T.rows[k].a, T.rows[k].b) IN
       Run(k + 1, last, TLCEval([s |-> a.s + d, s2 |-> a.s2 + d * d, mn |-> IF d < a.mn THEN d ELSE a.mn, mx |-> IF d > a.mx THEN d ELSE a.mx, ok |-> a.ok /\ T.rows[k].d = d]))
Row == /\ T.kind = "cmp" /\ verdict = "ok" /\ i <= N /\ i' = End + 1 /\ UNCHANGED t
       /\ acc' = Run(i, End, acc)
       /\ verdict' = IF ~acc'.ok THEN "a row does not hold its difference" ELSE "ok"
\* printed with two decimals
Shown(p, num, den) == LET c == (100 * num) \div den IN p \in (c - 1)..(c + 2)
Var == N * acc.s2 - acc.s * acc.s
Stats == /\ T.kind = "cmp" /\ verdict = "ok" /\ i = N + 1 /\ i' = i + 1 /\ UNCHANGED <<t, acc>>
         /\ verdict' =
              IF (T.has = 1) # (acc.mx > 0) THEN "it says it has a difference although no row differs, or the reverse"
              ELSE IF N = 0 THEN "ok"
              ELSE IF T.max # acc.mx \/ T.pmax # acc.mx THEN "wrong maximum"
              ELSE IF T.min # acc.mn \/ T.pmin # acc.mn THEN "wrong minimum"
              ELSE IF T.mean[1] # acc.s \/ T.mean[2] > 100 THEN "wrong mean"
              ELSE IF N = 1 /\ T.var # <<-1, 0>> THEN "the variance of a single row is not -1"
              ELSE IF N > 1 /\ T.small = 1 /\ (T.var[1] # Var \/ T.var[2] > 100000) THEN "wrong sample variance"
              ELSE IF N > 1 /\ T.small = 0 /\ (T.wide # VarLimbs(N, acc.s, acc.s2) \/ T.var[2] > 100000) THEN "wrong sample variance"
              ELSE IF ~Shown(T.pmean, acc.s, N) THEN "wrong mean printed"
              ELSE "ok"
Spec == Init /\ [][Pair \/ Row \/ Stats]_vars
NoViolation == verdict = "ok"
=============================================================================
