SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "exponent"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
