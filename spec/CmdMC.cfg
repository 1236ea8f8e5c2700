SPECIFICATION Spec
CONSTANTS MaxChars = 4 MaxArgs = 2 Mode = "first"
INVARIANTS Verdict Got
CHECK_DEADLOCK FALSE
