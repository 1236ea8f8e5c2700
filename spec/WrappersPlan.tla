---------------------------- MODULE WrappersPlan ----------------------------
EXTENDS Wrappers, Json, IOUtils
ASSUME JsonSerialize(IOEnv.PLAN, Rows)
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
