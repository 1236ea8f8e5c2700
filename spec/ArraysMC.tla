------------------------------ MODULE ArraysMC ------------------------------
(* Design model of an array call: a main loop that handles W elements per    *)
(* step, possibly a scalar head that aligns the output first, and a scalar   *)
(* tail.  Memory is a window with a guard zone on both sides of the output.  *)
(* Any schedule of that shape writes exactly the elements 0..n-1, once each, *)
(* with the value belonging to its index, and reads exactly 0..n-1.          *)
(* Variants that must be rejected: "overrun" starts a block whenever one     *)
(* element is left, "notail" forgets the remainder, "shift" takes the value  *)
(* of the next element in the remainder.                                     *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxN, Widths, Guard, Variant
VARIABLES n, w, align, i, mem, reads, phase
vars == <<n, w, align, i, mem, reads, phase>>

Window == (-Guard)..(MaxN + Guard)
f(k) == 1000 + 7 * k              \* injective stand-in for the function of input element k
Untouched == 0

Init == /\ n \in 0..MaxN /\ w \in Widths /\ align \in 0..7
        /\ i = 0 /\ phase = "head" /\ reads = {}
        /\ mem = [a \in Window |-> Untouched]
Put(S) == /\ reads' = reads \cup S
          /\ mem' = [a \in Window |-> IF a \in S THEN f(a) ELSE mem[a]]
HeadLen == LET h == (w - (align % w)) % w IN IF h < n THEN h ELSE n
Head == /\ phase = "head" /\ i < HeadLen
        /\ Put({i}) /\ i' = i + 1 /\ UNCHANGED <<n, w, align, phase>>
HeadDone == /\ phase = "head" /\ i >= HeadLen /\ phase' = "main"
            /\ UNCHANGED <<n, w, align, i, mem, reads>>
Fits == IF Variant = "overrun" THEN i < n ELSE i + w <= n
Main == /\ phase = "main" /\ Fits
        /\ Put(i..(i + w - 1)) /\ i' = i + w /\ UNCHANGED <<n, w, align, phase>>
MainDone == /\ phase = "main" /\ ~Fits /\ phase' = "tail"
            /\ UNCHANGED <<n, w, align, i, mem, reads>>
TailStep == /\ phase = "tail" /\ i < n /\ Variant # "notail"
            /\ (IF Variant = "shift" THEN reads' = reads \cup {i + 1} /\ mem' = [mem EXCEPT ![i] = f(i + 1)] ELSE Put({i})) /\ i' = i + 1 /\ UNCHANGED <<n, w, align, phase>>
Return == /\ phase = "tail" /\ (i >= n \/ Variant = "notail") /\ phase' = "done"
          /\ UNCHANGED <<n, w, align, i, mem, reads>>
Next == Head \/ HeadDone \/ Main \/ MainDone \/ TailStep \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Progress == \A k \in 0..(i - 1) : mem[k] = f(k)
Bounds   == \A a \in Window : (a < 0 \/ a >= n) => mem[a] = Untouched /\ a \notin reads
Final    == phase = "done" => /\ \A k \in 0..(n - 1) : mem[k] = f(k)
                              /\ reads = 0..(n - 1)
Ends     == <>(phase = "done")
=============================================================================
