SPECIFICATION Spec
CONSTANTS Mode = "plain" MaxLen = 5
INVARIANTS InOrder Holds
CHECK_DEADLOCK FALSE
