SPECIFICATION Spec
CONSTANTS Variant = "last" MaxLen = 3
INVARIANTS Refused Acted NotRefused
CHECK_DEADLOCK FALSE
