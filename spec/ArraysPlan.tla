----------------------------- MODULE ArraysPlan -----------------------------
(* Prints the calls of the array checks for the driver.                      *)
EXTENDS Arrays, Json, IOUtils
ASSUME JsonSerialize(IOEnv.PLAN, [names |-> ArrayNames, calls |-> Calls(IOEnv.TIER), foot |-> FootCalls(IOEnv.TIER), giant |-> GiantN, giantNames |-> GiantNames(IOEnv.TIER)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
