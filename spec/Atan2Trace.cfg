SPECIFICATION Spec
INVARIANT NoViolation
INVARIANT Complete
CHECK_DEADLOCK FALSE
