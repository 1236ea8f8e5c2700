SPECIFICATION Spec
CONSTANTS Variant = "right" MaxLen = 3
INVARIANTS Refused Acted NotRefused
CHECK_DEADLOCK FALSE
