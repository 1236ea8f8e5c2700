SPECIFICATION Spec
CONSTANTS MaxChars = 4 MaxArgs = 2 Mode = "lasteq"
INVARIANTS Verdict Got
CHECK_DEADLOCK FALSE
