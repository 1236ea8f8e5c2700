---------------------------- MODULE HeadersPlan ----------------------------
(* Prints the sequences to compile and what has to be usable in each.        *)
EXTENDS Headers, Json, IOUtils, SequencesExt
Seed == LET s == IOEnv.SEEDN IN IF s = "" THEN 1 ELSE atoi(s)
All == TLCEval(Units(IOEnv.TIER, Seed))
ASSUME AllVisible
ASSUME JsonSerialize(IOEnv.PLAN, [headers |-> HeaderNames, units |-> All,
                                  provides |-> [h \in H |-> SetToSeq(Provides(HeaderNames[h]))]])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
