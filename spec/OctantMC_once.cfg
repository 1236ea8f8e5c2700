SPECIFICATION Spec
CONSTANT Variant = "once"
INVARIANT TypeOK
INVARIANT Scheme
INVARIANT Five
CHECK_DEADLOCK FALSE
