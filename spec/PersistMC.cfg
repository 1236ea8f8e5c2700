SPECIFICATION Spec
CONSTANTS Mode = "copy" MaxData = 3
INVARIANT Integrity
PROPERTIES WriteOK ReadOK
CHECK_DEADLOCK FALSE
