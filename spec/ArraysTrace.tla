---------------------------- MODULE ArraysTrace ----------------------------
(* Validates recorded array calls.  One behaviour per array function; the    *)
(* walk has to go through all planned calls, in order.                       *)
(*   mode "equal": event [n, offs, i, x, y, s, fault]: witness index i (-1 if *)
(*     n = 0) with input x, stored bits y and bits s of the scalar function   *)
(*   mode "foot":  event [n, place, fault, inmod, before, after, unwritten]  *)
(*   mode "giant", "giantfoot": one call beyond 2^31, lengths as limbs, judged *)
(*     like "equal" and "foot" (canaries in the last block of the output only) *)
EXTENDS Arrays, Json, IOUtils

Mode   == IOEnv.MODE
Traces == ndJsonDeserialize(IOEnv.TRACE)      \* [name, fmt, calls]
Plan   == TLCEval(CASE Mode = "equal" -> Calls(IOEnv.TIER) [] Mode = "foot" -> FootCalls(IOEnv.TIER)
                 [] Mode \in {"giant", "giantfoot"} -> << [n |-> GiantN] >>)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Fm(tr) == IF tr.fmt = "d" THEN F64 ELSE F32

JudgeEqual(F, p, ev) ==
  IF ev.fault # "none" THEN "call ended with " \o ev.fault
  ELSE IF p.n = 0 THEN "ok"
  ELSE IF SameBits(F, ev.y, ev.s) THEN "ok" ELSE "array element differs from the scalar function"
JudgeFoot(p, ev) ==
  IF ev.fault # "none" THEN "call ended with " \o ev.fault
  ELSE IF ev.inmod # 0 THEN "input modified"
  ELSE IF ev.before # 0 THEN "memory before the output written"
  ELSE IF ev.after # 0 THEN "memory after the output written"
  ELSE IF ev.unwritten # 0 THEN "output element not written"
  ELSE "ok"

JudgeGiant(F, p, ev) ==
  IF ev.fault # "none" THEN "call ended with " \o ev.fault
  ELSE IF SameBits(F, ev.y, ev.s) THEN "ok" ELSE "array element differs from the scalar function"
StructuralG(p, ev) == ev.n = p.n /\ LtL(ev.i, ev.n)
StructuralE(p, ev) == /\ ev.n = p.n /\ ev.offs = p.offs
                      /\ ev.fault = "none" => (IF p.n = 0 THEN ev.i = -1 ELSE ev.i \in 0..(p.n - 1))
StructuralF(p, ev) == ev.n = p.n /\ ev.place = p.place

Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Call == /\ verdict = "ok"
        /\ i <= Len(Plan)
        /\ i <= Len(Traces[t].calls)
        /\ LET p == Plan[i] ev == Traces[t].calls[i] IN
           /\ Assert(CASE Mode = "equal" -> StructuralE(p, ev) [] Mode \in {"giant", "giantfoot"} -> StructuralG(p, ev) [] OTHER -> StructuralF(p, ev), <<"driver", Traces[t].name, p, ev>>)
           /\ verdict' = CASE Mode = "equal" -> JudgeEqual(Fm(Traces[t]), p, ev)
                           [] Mode = "giant" -> JudgeGiant(Fm(Traces[t]), p, ev)
                           [] OTHER -> JudgeFoot(p, ev)
        /\ i' = i + 1
        /\ UNCHANGED t
Spec == Init /\ [][Call]_vars
NoViolation == verdict = "ok"
\* a walk that stops early stopped because the function did not return
Complete == (verdict = "ok" /\ i > Len(Traces[t].calls)) => i > Len(Plan)
Names == TLCEval(IF Mode \in {"giant", "giantfoot"} THEN GiantNames(IOEnv.TIER) ELSE ArrayNames)
AllFunctions == Len(Traces) = Len(Names) /\ \A k \in DOMAIN Traces : Traces[k].name = Names[k].name
=============================================================================
