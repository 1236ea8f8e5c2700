SPECIFICATION Spec
CONSTANTS MaxLen = 5
Fault = "none"
INVARIANT Compiles
CHECK_DEADLOCK FALSE
