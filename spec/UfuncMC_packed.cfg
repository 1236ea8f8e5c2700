SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "packed"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
