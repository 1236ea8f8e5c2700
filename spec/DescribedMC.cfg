SPECIFICATION Spec
CONSTANTS Variant = "right" MaxN = 4 MaxSteps = 4
INVARIANT Described
CHECK_DEADLOCK FALSE
