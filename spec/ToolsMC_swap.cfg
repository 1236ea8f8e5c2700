SPECIFICATION Spec
CONSTANTS
  Variant = "swap"
  MaxRuns = 3
INVARIANTS Compared Skipped SameFunction
CHECK_DEADLOCK FALSE
