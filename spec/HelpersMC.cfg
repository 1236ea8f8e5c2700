SPECIFICATION Spec
CONSTANT Mode = "plain"
INVARIANTS InUnit Restored IsFloor
CHECK_DEADLOCK FALSE
