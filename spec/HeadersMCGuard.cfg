SPECIFICATION Spec
CONSTANTS MaxLen = 2
Fault = "guard"
INVARIANT Compiles
CHECK_DEADLOCK FALSE
