SPECIFICATION Spec
CONSTANTS MaxChars = 4 MaxArgs = 2 Mode = "bynames"
INVARIANTS Verdict Got
CHECK_DEADLOCK FALSE
