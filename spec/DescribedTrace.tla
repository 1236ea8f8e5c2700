--------------------------- MODULE DescribedTrace ---------------------------
(* Validates written files.  kind "chain": c (the object), files (as written *)
(* by it, then by an object read from the file before), from (the name of    *)
(* each file); kind "title": fn, ref, test, file.  The rows of the first     *)
(* file of a chain are walked one by one.                                    *)
EXTENDS Described, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Rows == IF T.kind = "chain" THEN Len(T.files[1].rows) ELSE 0
Files == IF T.kind = "chain" THEN Len(T.files) ELSE 1
Judge ==
  IF T.kind = "title"
  THEN IF Len(T.file.head) = 5 /\ After(T.file.head[3]) = Title(T.fn, T.ref, T.test) THEN "ok" ELSE "the comparison is not named after the function and both files"
  ELSE IF i = 1 THEN Header(T.c, T.files[1])
  ELSE IF i <= Files THEN Copied(T.files[i - 1], T.files[i], T.from[i - 1])
  ELSE Row(T.c, T.files[1].rows[i - Files])
Step == /\ verdict = "ok" /\ i <= Files + Rows /\ i' = i + 1 /\ UNCHANGED t
        /\ verdict' = Judge
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
