-------------------------------- MODULE Plan --------------------------------
(* Prints the sweep plan of a mode from the contract tables.                 *)
EXTENDS Special, TLC, Json, IOUtils, SequencesExt

FnsOf(s) == CASE s = "AccD" -> AccD [] s = "AccF" -> AccF [] s = "Rec" -> RecD \cup RecF
              [] s = "All" -> AllFns [] s = "Special" -> SpecialFns [] s = "Joint" -> {"sin_d", "sin_f"}
              [] s = "Parity" -> {fn \in AllFns : Parity(fn) # "none"}

Rows(fn) == LET rs == RegionsFor(IOEnv.MODE, fn)
            IN [i \in DOMAIN rs |-> [fn |-> fn, g |-> i, lo |-> rs[i].lo, hi |-> rs[i].hi,
                 floor |-> rs[i].floor, ceil |-> rs[i].ceil, bpc |-> rs[i].bpc, cpb |-> rs[i].cpb,
                 n |-> IF IOEnv.TIER = "quick" THEN rs[i].nq ELSE rs[i].nt]]
Names == SetToSeq(FnsOf(IOEnv.FNS))
ASSUME PlanWellFormed == \A fn \in FnsOf(IOEnv.FNS) \cap AllFns : RegionsWellFormed(fn)
ASSUME PlanWritten == JsonSerialize(IOEnv.PLAN, [i \in DOMAIN Names |-> Rows(Names[i])])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
