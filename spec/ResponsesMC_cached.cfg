SPECIFICATION Spec
CONSTANTS Mode = "cached" MaxLen = 5
INVARIANTS InOrder Holds
CHECK_DEADLOCK FALSE
