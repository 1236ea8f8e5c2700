---------------------------- MODULE TimingTrace ----------------------------
(* Validates recorded timers and measurements.                               *)
(* kind "timer": obs of [r1, r2, e] (e in limbs).  kind "run": the events of *)
(* one measurement, c (clock reading) and f (evaluation of some inputs), and *)
(* the reported mean times repetitions times inputs (limbs) and its error as *)
(* a spread.  kind "big": a                                                  *)
(* measurement with more than 2^32 evaluations under a clock that advances   *)
(* by dt with each reading, so that every repetition takes dt.               *)
EXTENDS Timing, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, inside, start, seen, took, verdict
vars == <<t, i, inside, start, seen, took, verdict>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ i = 1 /\ inside = FALSE /\ start = [s |-> 0, n |-> 0] /\ seen = <<>> /\ took = <<>> /\ verdict = "ok"
Timer == /\ T.kind = "timer" /\ verdict = "ok" /\ i <= Len(T.obs) /\ i' = i + 1 /\ UNCHANGED <<t, inside, start, seen, took>>
         /\ LET o == T.obs[i] IN
            /\ Assert(Earlier(o.r1, o.r2), <<"driver", t, i>>)
            /\ verdict' = IF o.e = Elapsed(o.r1, o.r2) THEN "ok" ELSE "the elapsed time is not the difference of the readings"
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[k]}) = Cardinality({j \in DOMAIN b : b[j] = a[k]})
E == T.ev[i]
More == T.kind = "run" /\ verdict = "ok" /\ i <= Len(T.ev)
Clock == /\ More /\ E.k = "c" /\ i' = i + 1 /\ UNCHANGED t /\ inside' = ~inside /\ seen' = <<>>
         /\ IF ~inside
            THEN /\ start' = E.r /\ UNCHANGED <<took, verdict>>
            ELSE /\ took' = Append(took, Elapsed(start, E.r)) /\ UNCHANGED start
                 /\ verdict' = IF SameBag(seen, T.inputs) THEN "ok" ELSE "a repetition does not evaluate every input once"
Eval == /\ More /\ E.k = "f" /\ i' = i + 1 /\ UNCHANGED <<t, inside, start, took, verdict>>
        /\ seen' = IF inside THEN seen \o E.x ELSE seen
\* a double mean times the number of evaluations is the total up to 1/100 ns, a
\* float one up to the rounding of the mean
Near(a, b) == IF T.fmt = "d" THEN a = b /\ T.res <= 10000
              ELSE LeqL(DistL(a, b), IncL(ShrL(b, 22)))
\* the printed lines: mean p (hundredths) times the evaluations is the total, the
\* error is the reported one, a given scale times the evaluations is the speedup
\* times the total, all to one hundredth
Within(a, b, w) == LeqL(DistL(a, b), w)
Line(l, total, scale) ==
  LET n == OfInt(T.n * T.reps, 4) IN
  /\ l.ok = 1
  /\ Within(MulL(l.mean, n), MulL(total, OfInt(100, 4)), ResizeL(n, 8))
  /\ (T.reps = 1 \/ Within(l.err, l.want, IncL(ShrL(l.want, 20))))
  /\ (scale = 1 <=> l.scaled = 0)
  /\ (scale = 1 \/ IsZeroL(total) \/ Within(MulL(l.speed, total), MulL(n, OfInt(100 * scale, 4)), ResizeL(total, 8)))
Report == /\ T.kind = "run" /\ verdict = "ok" /\ i = Len(T.ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<t, inside, start, seen, took>>
          /\ Assert(~inside, <<"unpaired clock reading", t>>)
          /\ verdict' = IF Len(took) < T.reps THEN "fewer repetitions than requested"
                        ELSE LET timed == SubSeq(took, (Len(took) - T.reps) + 1, Len(took)) IN
                             IF ~Near(T.avg, SumTimes(timed, 1)) THEN "the mean is not the total of the timed repetitions divided by repetitions and inputs"
                             ELSE IF T.reps > 1 /\ ~SpreadNear(T.err, timed) THEN "the error is not the standard error of the mean of the timed repetitions"
                             ELSE IF Line(T.lines[1], SumTimes(timed, 1), 1) /\ Line(T.lines[2], SumTimes(timed, 1), T.scale) THEN "ok"
                             ELSE "the printed line is not that of the measurement"
Big == /\ T.kind = "big" /\ verdict = "ok" /\ i = 1 /\ i' = 2 /\ UNCHANGED <<t, inside, start, seen, took>>
       /\ verdict' = IF LtL(T.evals, MulBits(OfInt(T.n, 4), T.reps, 0, ZeroL(4))) THEN "a repetition does not evaluate every input once"
                     ELSE LET total == MulBits(OfInt(T.dt, 4), T.reps, 0, ZeroL(4)) IN
                          IF ~Near(T.avg, total) THEN "the mean is not the total of the timed repetitions divided by repetitions and inputs"
                          \* all repetitions take the same time
                          ELSE IF LeqL(T.err, ShrL(MulL(total, total), 40)) THEN "ok"
                          ELSE "the error is not the standard error of the mean of the timed repetitions"
Spec == Init /\ [][Big \/ Timer \/ Clock \/ Eval \/ Report]_vars
NoViolation == verdict = "ok"
=============================================================================
