SPECIFICATION Spec
CONSTANTS Mode = "own" MaxData = 3
INVARIANT Integrity
PROPERTIES WriteOK ReadOK
CHECK_DEADLOCK FALSE
