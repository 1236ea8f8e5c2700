----------------------------- MODULE Atan2Plan -----------------------------
(* Prints the cells of the two-argument arctangent for the driver.           *)
EXTENDS Atan2, Json, IOUtils
ASSUME JsonSerialize(IOEnv.PLAN, [d |-> Cells(F64, IOEnv.MODE), f |-> Cells(F32, IOEnv.MODE)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
