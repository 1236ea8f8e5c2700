SPECIFICATION Spec
CONSTANT R = 4
Variant = "right"
INVARIANT Ordered
INVARIANT OddInY
INVARIANT InRange
INVARIANT Octants
CHECK_DEADLOCK FALSE
