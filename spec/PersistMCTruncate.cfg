SPECIFICATION Spec
CONSTANTS Mode = "truncate" MaxData = 3
INVARIANT Integrity
PROPERTIES WriteOK ReadOK
CHECK_DEADLOCK FALSE
