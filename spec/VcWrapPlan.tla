----------------------------- MODULE VcWrapPlan -----------------------------
(* Prints the calls: per vector width (double; single precision has twice as *)
(* many lanes) the array lengths, and where the arrays lie.                  *)
EXTENDS VcWrap, Json, IOUtils, TLC
Quick == IOEnv.TIER = "quick"
Widths == IF Quick THEN <<1, 2, 4, 8>> ELSE <<1, 2, 3, 4, 8, 16>>
Dense(w) == IF Quick THEN 4 * w + 9 ELSE 8 * w + 40
Long == IF Quick THEN <<127, 128, 1000, 1003>> ELSE <<127, 128, 129, 1000, 1001, 1002, 1003, 1024, 3999>>
Lengths(w) == [i \in 1..(Dense(w) + 1) |-> i - 1] \o Long
ASSUME JsonSerialize(IOEnv.PLAN, [names |-> Names, entries |-> Entries,
         widths |-> [i \in DOMAIN Widths |-> [w |-> Widths[i], lengths |-> Lengths(Widths[i])]], places |-> <<"hi", "lo">>])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
