SPECIFICATION Spec
CONSTANTS Variant = "longer" MaxLen = 3
INVARIANTS Refused Acted NotRefused
CHECK_DEADLOCK FALSE
