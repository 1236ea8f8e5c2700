SPECIFICATION Spec
CONSTANTS Mode = "twice" MaxLen = 5
INVARIANTS InOrder Holds
CHECK_DEADLOCK FALSE
