SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
Args = {0, 1, 2}
MaxCalls = 2
Variant = "private"
INVARIANT Pure
INVARIANT EnvKept
CHECK_DEADLOCK FALSE
