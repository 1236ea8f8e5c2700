SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "plain"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
