SPECIFICATION Spec
CONSTANTS Mode = "short" M = 64 MaxSize = 4
INVARIANTS Sized Prefix Distinct
CHECK_DEADLOCK FALSE
