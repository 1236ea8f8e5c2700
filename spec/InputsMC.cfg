SPECIFICATION Spec
CONSTANTS Variant = "right" MaxReps = 3 MaxSize = 3
INVARIANT Times
CHECK_DEADLOCK FALSE
