--------------------------- MODULE WrappersTrace ---------------------------
(* Validates calls of the exported names: one behaviour per row of the       *)
(* dispatch table, one step per call.  A call is admissible if it returned   *)
(* what the fast function of the row returns for the same arguments in the   *)
(* same order.                                                               *)
EXTENDS Wrappers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)    \* row, found, obs: [a, y, w]
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Init == t \in DOMAIN Traces /\ i = 0 /\ verdict = "ok"
Find == /\ i = 0 /\ i' = 1 /\ UNCHANGED t
        /\ verdict' = IF Traces[t].found = 1 THEN "ok" ELSE "name is not exported"
Call == /\ i > 0 /\ verdict = "ok" /\ i <= Len(Traces[t].obs)
        /\ LET o == Traces[t].obs[i] F == FmtR(Rows[t]) IN
           /\ Assert(Len(o.y) = Len(o.w) /\ Len(o.w) \in {1, 2}, <<"driver", t, i>>)
           /\ verdict' = IF \A k \in DOMAIN o.w : SameBits(F, o.y[k], o.w[k]) THEN "ok" ELSE "not the fast function of this name"
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Find \/ Call]_vars
NoViolation == verdict = "ok"
\* the trace covers the table, and the calls can tell the functions apart: what
\* two different functions should have returned differs somewhere
Wants(k) == [j \in DOMAIN Traces[k].obs |-> Traces[k].obs[j].w]
ASSUME Covered == Len(Traces) = Len(Rows) /\ \A k \in DOMAIN Rows : Traces[k].row = Rows[k] /\ (Traces[k].found = 1 => Len(Traces[k].obs) >= 40)
ASSUME Telling == \A a, b \in DOMAIN Rows : (a < b /\ Rows[a].lib = Rows[b].lib /\ Rows[a].fmt = Rows[b].fmt /\ Rows[a].shape = Rows[b].shape
                     /\ Rows[a].base # Rows[b].base /\ {Rows[a].base, Rows[b].base} # {"fma", "fmac"}
                     /\ Traces[a].found = 1 /\ Traces[b].found = 1) => Wants(a) # Wants(b)
=============================================================================
