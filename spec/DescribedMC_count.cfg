SPECIFICATION Spec
CONSTANTS Variant = "count" MaxN = 4 MaxSteps = 4
INVARIANT Described
CHECK_DEADLOCK FALSE
