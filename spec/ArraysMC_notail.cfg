SPECIFICATION Spec
CONSTANTS MaxN = 20
Widths = {1, 2, 4, 8}
Guard = 8
Variant = "notail"
INVARIANT Progress
INVARIANT Bounds
INVARIANT Final
PROPERTY Ends
CHECK_DEADLOCK FALSE
