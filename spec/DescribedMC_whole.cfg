SPECIFICATION Spec
CONSTANTS Variant = "whole" MaxN = 4 MaxSteps = 4
INVARIANT Described
CHECK_DEADLOCK FALSE
