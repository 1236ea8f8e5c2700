SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "plain"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
