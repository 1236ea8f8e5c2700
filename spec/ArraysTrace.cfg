SPECIFICATION Spec
INVARIANT NoViolation
INVARIANT Complete
INVARIANT AllFunctions
CHECK_DEADLOCK FALSE
