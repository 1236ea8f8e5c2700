SPECIFICATION Spec
CONSTANTS Mode = "skip" Reps = 2 Size = 2
INVARIANTS EveryInput Total
CHECK_DEADLOCK FALSE
