------------------------------ MODULE VcWrapMC ------------------------------
(* A wrapper at work: whole vectors are loaded, changed and stored; what is  *)
(* left over goes lane by lane into a vector that still holds the lanes of   *)
(* the vector before, and comes out lane by lane.  Variants to be rejected:  *)
(* "whole" stores the last vector as a whole, "stale" stores lanes that were *)
(* not filled, "front" puts the remainder at the beginning of the output,    *)
(* "last" leaves the last whole vector to the remainder, which is too small. *)
EXTENDS VcWrap
CONSTANTS MaxN, Widths, Variant
VARIABLES n, w, step, vec, mem, reads, pc
vars == <<n, w, step, vec, mem, reads, pc>>
Base == "sin"
Window == (-8)..(MaxN + 8)
In(k) == 100 + k
Init == /\ n \in 0..MaxN /\ w \in Widths /\ step = 0 /\ pc = "blocks" /\ reads = {}
        /\ vec = [l \in 0..7 |-> 9] /\ mem = [a \in Window |-> 0]
Whole == n - (n % w)
More == IF Variant = "last" THEN step + w < Whole ELSE step < Whole
Block == /\ pc = "blocks" /\ More /\ step' = step + w /\ UNCHANGED <<n, w, pc>>
         /\ vec' = [l \in 0..7 |-> IF l < w THEN In(step + l) ELSE vec[l]]
         /\ reads' = reads \cup (step..(step + w - 1))
         /\ mem' = [a \in Window |-> IF a \in step..(step + w - 1) THEN Value(Base, In(a)) ELSE mem[a]]
Rest == IF n - step < w THEN n - step ELSE w - 1
Fill == /\ pc = "blocks" /\ ~More /\ pc' = "rest" /\ UNCHANGED <<n, w, step, mem>>
        /\ vec' = [l \in 0..7 |-> IF l < Rest /\ Variant # "stale" THEN In(step + l) ELSE vec[l]]
        /\ reads' = reads \cup (step..(step + Rest - 1))
Empty == /\ pc = "rest" /\ pc' = "done" /\ UNCHANGED <<n, w, step, vec, reads>>
         /\ LET to == IF Variant = "front" THEN 0 ELSE step
                many == IF Variant = "whole" THEN w ELSE Rest IN
            mem' = [a \in Window |-> IF a \in to..(to + many - 1) THEN Value(Base, vec[a - to]) ELSE mem[a]]
Spec == Init /\ [][Block \/ Fill \/ Empty]_vars
Inside == \A a \in Window : (a < 0 \/ a >= n) => mem[a] = 0 /\ a \notin reads
Results == pc = "done" =>
  CallOK(Base, [end |-> "returned", around |-> Cardinality({a \in Window : (a < 0 \/ a >= n) /\ mem[a] # 0}), moved |-> 0,
                inp |-> [k \in 1..n |-> In(k - 1)], out |-> [k \in 1..n |-> mem[k - 1]]])
\* no two functions can be mixed up, and no two elements
Apart == \A i, j \in DOMAIN Bases : \A x, y \in {1, 2, 100, 4000} :
           Value(Bases[i], x) = Value(Bases[j], y) => i = j /\ x = y
ASSUME Apart
ASSUME \A i, j \in 1..32 : (Names[i].name = Names[j].name \/ Entries[i].name = Entries[j].name) => i = j
=============================================================================
