------------------------------ MODULE ToolsMC ------------------------------
(* The programs over a small directory: benchmark runs write responses, the  *)
(* user removes files, a comparison walks over its two lists.                *)
(* Variant "right" is the promised behaviour; the others are ways to get the *)
(* pairing wrong and must violate an invariant.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Variant, MaxRuns
Fn == {"e", "s"}
Nick == {"a", "b"}
Resp == Nick \X Fn
Pairs == Resp \X Resp
Lists == UNION {[1..n -> {p \in Pairs : p[1][2] = p[2][2]}] : n \in 1..2}
Distinct(l) == \A x, y \in DOMAIN l : x # y => l[x][1][2] # l[y][1][2]
VARIABLES resp, cmp, job, before, runs
vars == <<resp, cmp, job, before, runs>>
None == <<0>>
Idle == [list |-> <<>>, at |-> 1, skew |-> 0]
Init == resp = [r \in Resp |-> None] /\ cmp = [f \in Fn |-> None] /\ job = Idle /\ before = cmp /\ runs = 0
Bench(n) == /\ job.list = <<>> /\ runs < MaxRuns /\ runs' = runs + 1 /\ UNCHANGED <<cmp, job, before>>
            /\ resp' = [r \in Resp |-> IF r[1] = n THEN <<n, r[2], runs'>> ELSE resp[r]]
Remove(r) == job.list = <<>> /\ resp[r] # None /\ resp' = [resp EXCEPT ![r] = None] /\ UNCHANGED <<cmp, job, before, runs>>
Start(l) == job.list = <<>> /\ Distinct(l) /\ job' = [list |-> l, at |-> 1, skew |-> 0] /\ before' = cmp /\ UNCHANGED <<resp, cmp, runs>>
Walking == job.list # <<>> /\ job.at <= Len(job.list)
Ref == job.list[job.at][1]
Test == IF Variant = "shift" THEN job.list[job.at - job.skew][2] ELSE job.list[job.at][2]
Step == /\ Walking /\ UNCHANGED <<resp, before, runs>>
        /\ IF resp[Ref] # None /\ resp[Test] # None
           THEN /\ cmp' = [cmp EXCEPT ![Ref[2]] = IF Variant = "swap" THEN <<resp[Test], resp[Ref]>> ELSE <<resp[Ref], resp[Test]>>]
                /\ job' = [job EXCEPT !.at = @ + 1]
           ELSE /\ UNCHANGED cmp
                /\ job' = IF Variant = "stop" THEN [job EXCEPT !.at = Len(job.list) + 1] ELSE [job EXCEPT !.at = @ + 1, !.skew = @ + 1]
Finish == job.list # <<>> /\ job.at > Len(job.list) /\ job' = Idle /\ UNCHANGED <<resp, cmp, before, runs>>
Next == (\E n \in Nick : Bench(n)) \/ (\E r \in Resp : Remove(r)) \/ (\E l \in Lists : Start(l)) \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Complete == job.list # <<>> /\ job.at > Len(job.list)
Present(p) == resp[p[1]] # None /\ resp[p[2]] # None
\* after a walk every complete pair was compared, and nothing else changed
Compared == Complete => \A k \in DOMAIN job.list : Present(job.list[k]) => cmp[job.list[k][1][2]] = <<resp[job.list[k][1]], resp[job.list[k][2]]>>
Skipped == Complete => \A f \in Fn : (~\E k \in DOMAIN job.list : job.list[k][1][2] = f /\ Present(job.list[k])) => cmp[f] = before[f]
\* a comparison pairs responses of one function
SameFunction == \A f \in Fn : cmp[f] # None => cmp[f][1][2] = f /\ cmp[f][2][2] = f
=============================================================================
