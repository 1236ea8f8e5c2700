SPECIFICATION Spec
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
