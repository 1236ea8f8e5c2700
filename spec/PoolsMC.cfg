SPECIFICATION Spec
CONSTANTS Mode = "own" M = 64 MaxSize = 4
INVARIANTS Sized Prefix Distinct
CHECK_DEADLOCK FALSE
