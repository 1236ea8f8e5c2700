----------------------------- MODULE UfuncPlan -----------------------------
(* Prints the functions of the module and the calls: for each number of      *)
(* arguments and results the element counts, the step of every array (in     *)
(* elements) and the end of accessible memory at which the arrays lie.       *)
EXTENDS Ufunc, Json, IOUtils, TLC
Quick == IOEnv.TIER = "quick"
InSteps == {1, 0, 2, 3, -1, -2}
OutSteps == {1, 2, -1, 3}
Places == {"hi", "lo"}
Counts == IF Quick THEN {0, 1, 2, 3, 5, 8, 17, 40} ELSE 0..40
Few == IF Quick THEN {0, 1, 3, 17} ELSE {0, 1, 2, 3, 4, 5, 8, 17, 33, 40}
Layouts11 == {[n |-> n, steps |-> <<a, b>>, place |-> p] : n \in Counts, a \in InSteps, b \in OutSteps, p \in Places}
Layouts12 == {[n |-> n, steps |-> <<a, b, c>>, place |-> p] : n \in Few, a \in InSteps, b \in OutSteps, c \in OutSteps, p \in Places}
Layouts21 == {[n |-> n, steps |-> <<a, b, c>>, place |-> p] : n \in Few, a \in InSteps, b \in InSteps, c \in OutSteps, p \in Places}
Layouts31 == {[n |-> n, steps |-> <<a, b, c, d>>, place |-> p] :
                n \in Few \ {1}, a \in {1, 0, 2, -1}, b \in {1, 0, 3, -2}, c \in {1, 0, 2, -1}, d \in (IF Quick THEN {1, -1, 3} ELSE OutSteps), p \in Places}
ASSUME JsonSerialize(IOEnv.PLAN, [functions |-> Functions, giant |-> <<65536, 3>>,
         long |-> <<"vdt_exp", "vdt_atan2", "vdt_fma", "vdt_sincos">>,
         layouts |-> ("11" :> Layouts11 @@ "12" :> Layouts12 @@ "21" :> Layouts21 @@ "31" :> Layouts31)])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
