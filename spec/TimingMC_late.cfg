SPECIFICATION Spec
CONSTANTS Mode = "late" Reps = 2 Size = 2
INVARIANTS EveryInput Total
CHECK_DEADLOCK FALSE
