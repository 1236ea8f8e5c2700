---------------------------- MODULE RefuseTrace ----------------------------
(* Validates recorded invocations, one behaviour per program and one step    *)
(* per invocation: [args, o].                                                *)
EXTENDS Refuse, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)     \* prog, runs
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.runs) /\ i' = i + 1 /\ UNCHANGED t
        /\ verdict' = Judge(T.prog, T.runs[i].args, T.runs[i].o)
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
