---------------------------- MODULE BuildsTrace ----------------------------
(* Validates what the builds returned.  One behaviour per function.  State:  *)
(* for every group of arguments the digest of the results it is bound to.    *)
(* The first strict build binds it; every other strict build has to repeat   *)
(* it, whichever way the function is reached.                                *)
EXTENDS Builds, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)   \* [fn, groups, builds, obs: [b, way, g, n, h, x, y, y0]]
VARIABLES t, i, bound, verdict
vars == <<t, i, bound, verdict>>
Unbound == <<>>
Init == /\ t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
        /\ bound = [g \in 1..Traces[t].groups |-> Unbound]
Observe == LET tr == Traces[t] ob == tr.obs[i] IN
  /\ verdict = "ok" /\ i <= Len(tr.obs)
  /\ Assert(/\ ob.g \in DOMAIN bound /\ ob.b \in DOMAIN tr.builds /\ ob.way \in Ways /\ ob.n > 0
            /\ tr.builds[ob.b] \in Builds /\ Strict(tr.builds[ob.b]), <<"driver", t, i, ob>>)
  /\ IF bound[ob.g] = Unbound
     THEN bound' = [bound EXCEPT ![ob.g] = ob.h] /\ verdict' = IF ob.y = ob.y0 THEN "ok" ELSE "builds disagree"
     ELSE UNCHANGED bound /\ verdict' = IF ob.h = bound[ob.g] /\ ob.y = ob.y0 THEN "ok" ELSE "builds disagree"
  /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Observe]_vars
NoViolation == verdict = "ok"
\* every group was observed in every build and in every way the function has
ASSUME Complete == \A k \in DOMAIN Traces : LET tr == Traces[k] IN
  /\ {<<tr.obs[j].b, tr.obs[j].way, tr.obs[j].g>> : j \in DOMAIN tr.obs} = (DOMAIN tr.builds) \X {tr.ways[w] : w \in DOMAIN tr.ways} \X (1..tr.groups)
  /\ Len(tr.ways) >= 2
=============================================================================
