SPECIFICATION Spec
CONSTANTS MaxN = 5 Variant = "same"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
