SPECIFICATION Spec
CONSTANTS Variant = "warm" MaxReps = 3 MaxSize = 3
INVARIANT Times
CHECK_DEADLOCK FALSE
