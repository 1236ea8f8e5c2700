SPECIFICATION Spec
CONSTANTS
  Variant = "stop"
  MaxRuns = 3
INVARIANTS Compared Skipped SameFunction
CHECK_DEADLOCK FALSE
