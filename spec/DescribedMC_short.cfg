SPECIFICATION Spec
CONSTANTS Variant = "short" MaxN = 4 MaxSteps = 4
INVARIANT Described
CHECK_DEADLOCK FALSE
