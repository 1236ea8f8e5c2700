SPECIFICATION Spec
CONSTANTS Mode = "shared" M = 64 MaxSize = 4
INVARIANTS Sized Prefix Distinct
CHECK_DEADLOCK FALSE
