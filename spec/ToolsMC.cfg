SPECIFICATION Spec
CONSTANTS
  Variant = "right"
  MaxRuns = 3
INVARIANTS Compared Skipped SameFunction
CHECK_DEADLOCK FALSE
