SPECIFICATION Spec
CONSTANTS Variant = "label" MaxReps = 3 MaxSize = 3
INVARIANT Times
CHECK_DEADLOCK FALSE
