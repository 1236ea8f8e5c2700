SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "before"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
