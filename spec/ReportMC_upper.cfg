SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "upper"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
