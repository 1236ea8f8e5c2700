---------------------------- MODULE OctantTrace ----------------------------
(* Validates recorded joint sine-cosine results against the octant walk.     *)
(* One behaviour per precision and sign of the argument; one event per       *)
(* octant with several observed points inside it.                            *)
EXTENDS Octant, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)   \* [fmt, neg, octs: <<[k, obs: <<[x, s, c]>>]>>]
VARIABLES t, i, verdict
vars == <<k, ss, sc, big, edge, t, i, verdict>>

F == IF Traces[t].fmt = "d" THEN F64 ELSE F32

\* |x| in units of 2^-44, rounded down
Fix(b) == LET e == Exp2Of(F, b) - F.mb + 44 IN IF e >= 0 THEN ShlL(SigOf(F, b), e) ELSE ShrL(SigOf(F, b), -e)
Margin == <<0, 32, 0, 0>>                  \* 2^-7

InOctant(b) == LET v == Fix(b) IN
  /\ LeqL(Tail(AddL(edge, Margin)), v)
  /\ LeqL(Tail(AddL(v, Margin)), Tail(AddL(edge, PiO4Fix)))

MagLess(a, b) == LtL(MagOf(F, a), MagOf(F, b))
Right(o) ==
  /\ IsFinite(F, o.s) /\ IsFinite(F, o.c)
  /\ SignOf(F, o.s) = (ss + Traces[t].neg) % 2
  /\ SignOf(F, o.c) = sc
  /\ IF big = "s" THEN MagLess(o.c, o.s) ELSE MagLess(o.s, o.c)

Judge(ev) == IF \A j \in DOMAIN ev.obs : Right(ev.obs[j]) THEN "ok" ELSE "sign or order is not that of the octant"
Structural(ev) == /\ ev.k = k
                  /\ \A j \in DOMAIN ev.obs : InOctant(ev.obs[j].x) /\ SignOf(F, ev.obs[j].x) = Traces[t].neg

Init == OInit /\ t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
\* observe in the current octant, then cross into the next one
Step == /\ verdict = "ok"
        /\ i <= Len(Traces[t].octs)
        /\ LET ev == Traces[t].octs[i] IN
           /\ Assert(Structural(ev), <<"driver", t, ev>>)
           /\ verdict' = Judge(ev)
        /\ i' = i + 1
        /\ Cross
        /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
