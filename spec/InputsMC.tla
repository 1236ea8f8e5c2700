------------------------------ MODULE InputsMC ------------------------------
(* The timing program on a virtual clock that advances only by evaluations:  *)
(* three functions of different cost, measured one after the other.          *)
(* Variants: "right"; "keep" does not start a new total for a new function;  *)
(* "label" reports under the name of the function before; "warm" counts the  *)
(* warm-up; "sizes" divides by the default number of inputs.                 *)
EXTENDS Naturals, Sequences
CONSTANTS Variant, MaxReps, MaxSize
Fn == 1..3
Cost(f) == f
VARIABLES reps, size, f, rep, now, total, reported
vars == <<reps, size, f, rep, now, total, reported>>
Init == /\ reps \in 1..MaxReps /\ size \in 1..MaxSize /\ f = 1 /\ rep = 0 /\ now = 0 /\ total = 0 /\ reported = [g \in Fn |-> 0]
Warm == reps
Repeat == /\ f <= 3 /\ rep < Warm + reps /\ rep' = rep + 1
          /\ now' = now + size * Cost(f)
          /\ total' = IF rep >= Warm \/ Variant = "warm" THEN total + (now' - now) ELSE total
          /\ UNCHANGED <<reps, size, f, reported>>
Divisor == reps * (IF Variant = "sizes" THEN MaxSize ELSE size)
Name == IF Variant = "label" /\ f > 1 THEN f - 1 ELSE f
Report == /\ f <= 3 /\ rep = Warm + reps /\ rep' = 0 /\ f' = f + 1
          /\ reported' = [reported EXCEPT ![Name] = total \div Divisor]
          /\ total' = IF Variant = "keep" THEN total ELSE 0
          /\ UNCHANGED <<reps, size, now>>
Spec == Init /\ [][Repeat \/ Report]_vars
Times == \A g \in Fn : g < f => reported[g] = Cost(g)
=============================================================================
