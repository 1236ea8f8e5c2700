SPECIFICATION Spec
CONSTANTS MaxN = 4 Variant = "swapped"
INVARIANTS Rows Readable
CHECK_DEADLOCK FALSE
