SPECIFICATION Spec
CONSTANTS Mode = "reverse" MaxLen = 5
INVARIANTS InOrder Holds
CHECK_DEADLOCK FALSE
