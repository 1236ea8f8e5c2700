----------------------------- MODULE SweepTrace -----------------------------
(* Validates the trace of a sweep.  Each function is one behaviour: a        *)
(* frontier walks through the regions of the contract, one cell per step;    *)
(* a step is admissible if the cell starts at the frontier, stays inside the *)
(* region, its witnesses lie inside the cell, and what the code returned for *)
(* them is what the contract allows.  The walk has to reach the end.         *)
EXTENDS Special, TLC, TLCExt, Json, IOUtils

Mode   == IOEnv.MODE
Traces == ndJsonDeserialize(IOEnv.TRACE)      \* one line per function: [fn, cells]

VARIABLES f, i, g, at, verdict
vars == <<f, i, g, at, verdict>>

Table == TLCEval([k \in DOMAIN Traces |-> TLCEval(RegionsFor(Mode, Traces[k].fn))])

Inside(F, c, x) == LeqL(KeyOf(F, c.lo), KeyOf(F, x)) /\ LeqL(KeyOf(F, x), KeyOf(F, c.hi))

JudgeAcc(F, fn, r, c) ==
  IF ~Inside(F, c, c.x) THEN "witness outside its cell"
  ELSE IF ~IsFinite(F, c.y) THEN "result is not finite"
  ELSE IF Deviation(F, c.y, c.r, r.floor, r.ceil) > r.max + 2 THEN "error bound exceeded"
  ELSE "ok"

JudgeSpecial(F, fn, r, c) ==
  IF \E k \in DOMAIN c.obs : ~Inside(F, c, c.obs[k].x) THEN "witness outside its cell"
  ELSE IF \E k \in DOMAIN c.obs : ~Admissible(fn, r.want, c.obs[k].y, c.obs[k].r)
  THEN "result not admissible: " \o r.want ELSE "ok"

JudgeParity(F, fn, r, c) ==
  LET w == IF Parity(fn) = "odd" THEN c.odd ELSE c.even
      m == IF Parity(fn) = "odd" THEN NegBits(F, w.y) ELSE w.y
  IN IF ~Inside(F, c, w.x) THEN "witness outside its cell"
     ELSE IF Parity(fn) # "none" /\ ~SameValue(F, w.z, m) THEN "symmetry broken" ELSE "ok"

JudgeRange(F, fn, r, c) ==
  LET rg == RangeOf(fn) IN
  IF \E k \in DOMAIN c.obs : ~Inside(F, c, c.obs[k].x) THEN "witness outside its cell"
  ELSE IF \E k \in DOMAIN c.obs : ~(NumLeq(F, rg[1], c.obs[k].y) /\ NumLeq(F, c.obs[k].y, rg[2]))
  THEN "result out of range" ELSE "ok"

JudgeFpe(F, fn, r, c) ==
  IF c.fs # 0 THEN "exception raised by an isolated call"
  ELSE IF c.fv # 0 THEN "exception raised by a vectorised call" ELSE "ok"

JudgeJoint(F, fn, r, c) ==
  IF \E k \in DOMAIN c.obs : ~Inside(F, c, c.obs[k].x) THEN "witness outside its cell"
  ELSE IF \E k \in DOMAIN c.obs : ~SameValue(F, c.obs[k].s, c.obs[k].p) THEN "joint sine differs from sine"
  ELSE IF \E k \in DOMAIN c.obs : ~SameValue(F, c.obs[k].c, c.obs[k].q) THEN "joint cosine differs from cosine"
  ELSE "ok"

Judge(F, fn, r, c) ==
  CASE Mode = "acc"     -> JudgeAcc(F, fn, r, c)
    [] Mode = "special" -> JudgeSpecial(F, fn, r, c)
    [] Mode = "parity"  -> JudgeParity(F, fn, r, c)
    [] Mode = "range"   -> JudgeRange(F, fn, r, c)
    [] Mode = "fpe"     -> JudgeFpe(F, fn, r, c)
    [] Mode = "joint"   -> JudgeJoint(F, fn, r, c)

\* structural acceptance: a malformed walk is an error of the driver, not a verdict
Structural(F, r, c) ==
  /\ c.g = g
  /\ c.lo = at
  /\ LeqL(KeyOf(F, c.lo), KeyOf(F, c.hi))
  /\ LeqL(KeyOf(F, c.hi), KeyOf(F, r.hi))
  /\ c.n >= 1

Init == /\ f \in DOMAIN Traces
        /\ i = 1 /\ g = 1
        /\ at = IF Len(Table[f]) = 0 THEN <<>> ELSE Table[f][1].lo
        /\ verdict = "ok"

Cell == LET fn == Traces[f].fn
            F  == FmtOf(fn)
            rs == Table[f]
            c  == Traces[f].cells[i]
        IN /\ verdict = "ok"
           /\ i <= Len(Traces[f].cells)
           /\ g <= Len(rs)
           /\ Assert(Structural(F, rs[g], c), <<"walk broken", fn, i, c>>)
           /\ verdict' = Judge(F, fn, rs[g], c)
           /\ i' = i + 1
           /\ IF c.hi = rs[g].hi
              THEN /\ g' = g + 1
                   /\ at' = IF g + 1 <= Len(rs) THEN rs[g + 1].lo ELSE <<>>
              ELSE /\ g' = g
                   /\ at' = Succ(F, c.hi)
           /\ UNCHANGED f

Spec == Init /\ [][Cell]_vars

NoViolation == verdict = "ok"
\* every finished walk covered every region
Complete == (verdict = "ok" /\ i > Len(Traces[f].cells)) => g > Len(Table[f])
=============================================================================
