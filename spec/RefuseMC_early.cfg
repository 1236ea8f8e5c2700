SPECIFICATION Spec
CONSTANTS Variant = "early" MaxLen = 3
INVARIANTS Refused Acted NotRefused
CHECK_DEADLOCK FALSE
