SPECIFICATION Spec
CONSTANTS
  Variant = "shift"
  MaxRuns = 3
INVARIANTS Compared Skipped SameFunction
CHECK_DEADLOCK FALSE
