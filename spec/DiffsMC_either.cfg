SPECIFICATION Spec
CONSTANTS MaxLen = 5
Variant = "either"
INVARIANTS Moments Extremes Differs Variance
CHECK_DEADLOCK FALSE
