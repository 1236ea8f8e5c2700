---------------------------- MODULE HelpersTrace ----------------------------
(* Validates observed helper calls.  A trace: [fmt, what, obs]; obs of       *)
(* [op, a, m, r, k].                                                         *)
EXTENDS Helpers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Fm == IF Traces[t].fmt = "d" THEN F64 ELSE F32
Step == /\ verdict = "ok" /\ i <= Len(Traces[t].obs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET o == Traces[t].obs[i] IN
           /\ Assert(o.op \in Ops /\ Len(o.a) = Fm.n /\ Len(o.r) = Fm.n, <<"driver", o>>)
           /\ verdict' = IF Right(Fm, o) THEN "ok" ELSE "wrong result"
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
