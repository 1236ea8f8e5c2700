SPECIFICATION Spec
CONSTANTS
Contract = TRUE
INVARIANT SameAsStrict
CHECK_DEADLOCK FALSE
