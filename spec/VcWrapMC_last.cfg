SPECIFICATION Spec
CONSTANTS MaxN = 21 Widths = {1, 2, 4, 8} Variant = "last"
INVARIANTS Inside Results
CHECK_DEADLOCK FALSE
