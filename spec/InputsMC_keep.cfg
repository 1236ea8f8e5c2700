SPECIFICATION Spec
CONSTANTS Variant = "keep" MaxReps = 3 MaxSize = 3
INVARIANT Times
CHECK_DEADLOCK FALSE
