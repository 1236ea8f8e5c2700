----------------------------- MODULE PoolsTrace -----------------------------
(* Validates recorded creations.  One behaviour per request (dimension,      *)
(* precision, interval, seed) over all creations of all histories; the state *)
(* is what the request has been bound to so far: the prefixes of the first   *)
(* coordinate by length, and the second coordinate by size.  The behaviours  *)
(* of a last kind walk over the seeds of one interval.                       *)
EXTENDS Pools, Json, IOUtils, TLC, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACE)
Groups == ndJsonDeserialize(IOEnv.GROUPS)   \* first or last tokens of all seeds: [fmt, dim, iv, wide, toks, seeds]
VARIABLES g, t, i, pre, sec, verdict
vars == <<g, t, i, pre, sec, verdict>>
Init == /\ verdict = "ok" /\ i = 1 /\ pre = <<>> /\ sec = <<>>
        /\ \/ g = 0 /\ t \in DOMAIN Traces
           \/ t = 0 /\ g \in DOMAIN Groups
E(k) == Traces[t].events[k]
InRange(F, e, c) == e.len[c] = 0 \/ (NumLeq(F, Traces[t].lo[c], e.min[c]) /\ NumLeq(F, e.max[c], Traces[t].hi[c]))
Even(b) == \A k \in DOMAIN b : b[k] >= BinLow /\ b[k] <= BinHigh
Coords == 1..Traces[t].dim
Judge(e) ==
  LET F == Fmt(Traces[t].fmt) IN
  IF \E c \in Coords : e.len[c] # e.n THEN "the pool does not have the requested size"
  ELSE IF \E c \in Coords : ~InRange(F, e, c) THEN "a value lies outside the interval"
  ELSE IF \E c \in Coords : e.n = SpreadSize /\ Traces[t].wide[c] /\ ~Even(e.bins[c]) THEN "the values are not spread over the interval"
  ELSE IF \E c \in Coords : Traces[t].fine[c] /\ e.rep[c] > MostRepeats(F, e.n) THEN "values are repeated"
  ELSE IF e.n = SpreadSize /\ Traces[t].dim = 2 /\ Traces[t].wide[1] /\ Traces[t].wide[2] /\ ~Even(e.cells) THEN "the points are not spread over the rectangle"
  ELSE IF \E p \in DOMAIN e.pre : e.pre[p][1] \in DOMAIN pre /\ pre[e.pre[p][1]] # e.pre[p][2] THEN "the values differ from an earlier pool of the same interval and seed"
  ELSE IF Traces[t].dim = 2 /\ e.n \in DOMAIN sec /\ sec[e.n] # e.sec THEN "the second coordinates differ from an earlier pool of the same request"
  ELSE "ok"
Ext(f, k, v) == IF k \in DOMAIN f THEN f ELSE f @@ (k :> v)
RECURSIVE ExtAll(_, _, _)
ExtAll(f, ps, k) == IF k > Len(ps) THEN f ELSE ExtAll(Ext(f, ps[k][1], ps[k][2]), ps, k + 1)
Create == /\ g = 0 /\ verdict = "ok" /\ i <= Len(Traces[t].events)
          /\ LET e == E(i) IN
             /\ verdict' = Judge(e)
             /\ pre' = ExtAll(pre, e.pre, 1)
             /\ sec' = Ext(sec, e.n, e.sec)
          /\ i' = i + 1 /\ UNCHANGED <<g, t>>
\* seeds of one interval: all different
Seed == /\ t = 0 /\ verdict = "ok" /\ i <= Len(Groups[g].toks)
        /\ LET k == Groups[g].toks[i] IN
           /\ verdict' = IF Groups[g].wide /\ k \in DOMAIN pre THEN "two seeds give the same values" ELSE "ok"
           /\ pre' = Ext(pre, k, i)
        /\ i' = i + 1 /\ UNCHANGED <<g, t, sec>>
Spec == Init /\ [][Create \/ Seed]_vars
NoViolation == verdict = "ok"
=============================================================================
