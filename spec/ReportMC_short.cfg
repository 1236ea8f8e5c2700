SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "short"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
