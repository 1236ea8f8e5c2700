SPECIFICATION Spec
CONSTANTS Variant = "sizes" MaxReps = 3 MaxSize = 3
INVARIANT Times
CHECK_DEADLOCK FALSE
