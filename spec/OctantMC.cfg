SPECIFICATION Spec
CONSTANT Variant = "right"
INVARIANT TypeOK
INVARIANT Scheme
INVARIANT Five
CHECK_DEADLOCK FALSE
