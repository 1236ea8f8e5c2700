----------------------------- MODULE BuildsPlan -----------------------------
(* Prints the builds to make; the first one is the reference.                *)
EXTENDS Builds, TLC, Json, IOUtils, SequencesExt
ASSUME EveryValueUsed(IOEnv.TIER)
ASSUME JsonSerialize(IOEnv.PLAN, <<Reference>> \o SetToSeq(Planned(IOEnv.TIER) \ {Reference}))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
