SPECIFICATION Spec
CONSTANTS MaxLen = 5
Variant = "right"
INVARIANTS Moments Extremes Differs Variance
CHECK_DEADLOCK FALSE
