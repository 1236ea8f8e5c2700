SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "first"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
