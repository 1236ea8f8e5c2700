SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "output"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
