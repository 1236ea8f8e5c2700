SPECIFICATION Spec
CONSTANTS
Contract = FALSE
INVARIANT Agree
INVARIANT Bounded
INVARIANT SameAsStrict
CHECK_DEADLOCK FALSE
