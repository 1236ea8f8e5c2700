SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "swapped"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
