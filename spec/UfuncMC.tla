------------------------------ MODULE UfuncMC ------------------------------
(* A loop of a function with two arguments at work on memory: arrays that    *)
(* follow one another element by element are handed over as a whole, others  *)
(* element by element.  Variants to be rejected: "packed" takes every array  *)
(* for contiguous, "first" looks at the step of the first argument only to   *)
(* decide, "same" uses the first step for all, "output" takes the results    *)
(* for contiguous, "swapped" exchanges the arguments.                        *)
EXTENDS Ufunc
CONSTANTS MaxN, Variant
VARIABLES n, steps, k, mem, touched
vars == <<n, steps, k, mem, touched>>
F == Function("vdt_atan2")
Window == (-(2 * MaxN))..(2 * MaxN)
Addr(j, i) == steps[j] * i
\* what lies in the cells of argument j
Cell(j, a) == IF steps[j] = 0 THEN (IF a = 0 THEN 1 ELSE -77)
              ELSE IF \E i \in 0..(n - 1) : Addr(j, i) = a THEN (CHOOSE i \in 0..(n - 1) : Addr(j, i) = a) + 1 ELSE -77
Packed == CASE Variant = "packed" -> TRUE
            [] Variant = "first" -> steps[1] = 1
            [] OTHER -> steps = <<1, 1, 1>>
Used(j, i) == IF Packed THEN i ELSE IF Variant = "same" THEN steps[1] * i ELSE IF Variant = "output" /\ j = 3 THEN i ELSE Addr(j, i)
Init == /\ n \in 0..MaxN /\ steps \in ((-2)..2) \X ((-2)..2) \X {-2, -1, 1, 2}
        /\ k = 0 /\ mem = [a \in Window |-> -77] /\ touched = {}
Work == /\ k < n /\ k' = k + 1 /\ UNCHANGED <<n, steps>>
        /\ LET x == Cell(1, Used(1, k))  y == Cell(2, Used(2, k)) IN
           mem' = [mem EXCEPT ![Used(3, k)] = Value(F.number, IF Variant = "swapped" THEN <<y, x>> ELSE <<x, y>>)]
        /\ touched' = touched \cup {<<j, Used(j, k)>> : j \in 1..3}
Spec == Init /\ [][Work]_vars
Own(j) == {Addr(j, i) : i \in 0..(n - 1)}
Inside == \A p \in touched : p[2] \in Own(p[1])
Results == k = n =>
  CallVerdict(F, "d", [n |-> n, steps |-> steps, end |-> "returned", moved |-> 0,
                       around |-> Cardinality({a \in Window : a \notin Own(3) /\ mem[a] # -77}),
                       out |-> << [i \in 1..n |-> mem[Addr(3, i - 1)]] >>]) = "ok"
\* no two functions, results, elements or arguments can be mixed up
Args == {1, 2, 3, 40}
ASSUME Cardinality({Value(f, a) : f \in 1..48, a \in Args \X Args \X Args}) = 48 * 64
ASSUME \A i, j \in DOMAIN Functions : (Functions[i].name = Functions[j].name \/ Functions[i].number = Functions[j].number) => i = j
=============================================================================
