SPECIFICATION Spec
CONSTANTS MaxLen = 2
Fault = "self"
INVARIANT Compiles
CHECK_DEADLOCK FALSE
