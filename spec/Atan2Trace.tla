----------------------------- MODULE Atan2Trace -----------------------------
(* Validates the recorded sweep of the two-argument arctangent: one          *)
(* behaviour per precision and quadrant, one step per cell.                  *)
EXTENDS Atan2, Json, IOUtils

Mode   == IOEnv.MODE
Traces == ndJsonDeserialize(IOEnv.TRACE)     \* [fmt, sy, sx, cells]
VARIABLES t, i, verdict
vars == <<t, i, verdict>>

Fm(tr) == IF tr.fmt = "d" THEN F64 ELSE F32
CellsD == TLCEval(Cells(F64, Mode))
CellsF == TLCEval(Cells(F32, Mode))
Plan   == [j \in DOMAIN Traces |-> IF Traces[j].fmt = "d" THEN CellsD ELSE CellsF]

Acc(F, c, o) ==
  IF c.k = "axis" THEN (IF OnAxis(F, o.y, o.x, o.r) THEN "ok" ELSE "wrong on the axis")
  ELSE IF ~IsFinite(F, o.r) THEN "result is not finite"
  ELSE IF Deviation(F, o.r, o.ref, NoFloor, NoCeil) > Bound2(F) + 2 THEN "error bound exceeded" ELSE "ok"
Par(F, c, o) == IF SameValue(F, o.q, NegBits(F, o.r)) THEN "ok" ELSE "not odd in its first argument"
Rng(F, c, o) == IF NumLeq(F, NegBits(F, Pi(F)), o.r) /\ NumLeq(F, o.r, Pi(F)) THEN "ok" ELSE "result out of range"
Fpe(F, c, o) == IF o.f = 0 THEN "ok" ELSE "floating-point exception raised"

One1(F, c, o) == CASE Mode = "acc" -> Acc(F, c, o) [] Mode = "parity" -> Par(F, c, o)
                   [] Mode = "range" -> Rng(F, c, o) [] Mode = "fpe" -> Fpe(F, c, o)
Judge(F, c, ev) ==
  LET bad == {j \in DOMAIN ev.obs : One1(F, c, ev.obs[j]) # "ok"}
  IN IF bad = {} THEN "ok" ELSE One1(F, c, ev.obs[CHOOSE j \in bad : TRUE])

Structural(F, tr, c, ev) ==
  /\ ev.k = c.k /\ ev.lo = c.lo /\ ev.hi = c.hi
  /\ Len(ev.obs) >= 1
  /\ \A j \in DOMAIN ev.obs : InCell(F, c, tr.sy, tr.sx, ev.obs[j].y, ev.obs[j].x)

Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Step == /\ verdict = "ok"
        /\ i <= Len(Plan[t])
        /\ LET F == Fm(Traces[t]) c == Plan[t][i] ev == Traces[t].cells[i] IN
           /\ Assert(Structural(F, Traces[t], c, ev), <<"driver", t, i, c, ev>>)
           /\ verdict' = Judge(F, c, ev)
        /\ i' = i + 1
        /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
Complete == \A j \in DOMAIN Traces : Len(Traces[j].cells) = Len(Plan[j])
=============================================================================
