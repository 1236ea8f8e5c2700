SPECIFICATION Spec
CONSTANTS MaxLen = 5
Variant = "zero"
INVARIANTS Moments Extremes Differs Variance
CHECK_DEADLOCK FALSE
