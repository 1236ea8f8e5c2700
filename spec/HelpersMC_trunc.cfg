SPECIFICATION Spec
CONSTANT Mode = "trunc"
INVARIANTS InUnit Restored IsFloor
CHECK_DEADLOCK FALSE
