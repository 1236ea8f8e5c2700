--------------------------- MODULE ResponsesPlan ---------------------------
EXTENDS Responses, Patterns, Json, IOUtils
ASSUME JsonSerialize(IOEnv.PLAN, [lengths |-> Lengths, long |-> LongLengths, repeats |-> Repeats, kinds |-> Kinds, d |-> Patterns(F64), f |-> Patterns(F32)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
