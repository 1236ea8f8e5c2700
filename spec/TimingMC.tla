------------------------------ MODULE TimingMC ------------------------------
(* A measurement: warm-up repetitions, then timed ones; each reads the clock,*)
(* evaluates every input, reads the clock again.  Modes: "plain"; "warm"     *)
(* adds the warm-up to the total; "late" reads the start clock only once;    *)
(* "skip" leaves out the last input.                                         *)
EXTENDS Timing, Naturals, TLC
CONSTANTS Mode, Reps, Size
VARIABLES now, rep, pc, start, evals, total, spent
vars == <<now, rep, pc, start, evals, total, spent>>
Warm == Reps
Init == now = 0 /\ rep = 0 /\ pc = "start" /\ start = 0 /\ evals = 0 /\ total = 0 /\ spent = <<>>
Tick == \E d \in {0, 1, 3} : now' = now + d
Start == /\ pc = "start" /\ rep < Warm + Reps /\ pc' = "eval" /\ evals' = 0
         /\ start' = (IF Mode = "late" /\ rep > 0 THEN start ELSE now) /\ UNCHANGED <<now, rep, total, spent>>
         /\ TRUE
Eval == /\ pc = "eval" /\ evals < (IF Mode = "skip" THEN Size - 1 ELSE Size) /\ evals' = evals + 1 /\ Tick
        /\ UNCHANGED <<rep, pc, start, total, spent>>
Stop == /\ pc = "eval" /\ evals = (IF Mode = "skip" THEN Size - 1 ELSE Size) /\ pc' = "idle"
        /\ total' = (IF rep >= Warm \/ Mode = "warm" THEN total + (now - start) ELSE total)
        /\ spent' = Append(spent, [e |-> evals, at |-> now]) /\ UNCHANGED <<now, rep, start, evals>>
Idle == /\ pc = "idle" /\ pc' = "start" /\ rep' = rep + 1 /\ Tick /\ UNCHANGED <<start, evals, total, spent>>
\* what the repetitions really took, kept independently
VARIABLES took, began
Mon == /\ began' = (IF pc = "start" /\ pc' = "eval" THEN now ELSE began)
       /\ took' = (IF pc = "eval" /\ pc' = "idle" THEN Append(took, now - began) ELSE took)
Next == (Start \/ Eval \/ Stop \/ Idle) /\ Mon
Spec == Init /\ took = <<>> /\ began = 0 /\ [][Next]_<<vars, took, began>>
RECURSIVE SumSeq(_, _)
SumSeq(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + SumSeq(q, k + 1)
EveryInput == \A k \in DOMAIN spent : spent[k].e = Size
Total == rep = Warm + Reps => total = SumSeq(took, Warm + 1)
\* limb arithmetic against ordinary arithmetic where both fit
ASSUME \A s \in 0..2, a, b \in {0, 1, 499999999, 999999998, 999999999} :
  LET r1 == [s |-> 5, n |-> a] r2 == [s |-> 5 + s, n |-> b] IN
  (Earlier(r1, r2) /\ ~(s = 2 /\ b >= a)) => ToIntL(Elapsed(r1, r2)) = (IF ElapsedInt(r1, r2) >= HUGE THEN HUGE ELSE ElapsedInt(r1, r2))
\* the spread against its definition: the sum of the squared distances of all pairs
Pairwise(q) == LET RECURSIVE S(_)
                   S(P) == IF P = {} THEN 0 ELSE LET p == CHOOSE x \in P : TRUE IN (q[p[1]] - q[p[2]]) * (q[p[1]] - q[p[2]]) + S(P \ {p})
               IN  S({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2]})
ASSUME \A q \in [1..3 -> {0, 1, 7, 300, 9999}] :
  LET l == [k \in 1..3 |-> OfInt(q[k], 4)] IN
  /\ ToIntL(Spread(l)) = Pairwise(q) /\ SpreadNear(Spread(l), l)
  /\ (Pairwise(q) > 100 => ~SpreadNear(ShlL(Spread(l), 1), l) /\ ~SpreadNear(ZeroL(8), l))
=============================================================================
