SPECIFICATION Spec
CONSTANTS
Contract = TRUE
INVARIANT Agree
INVARIANT Bounded
CHECK_DEADLOCK FALSE
