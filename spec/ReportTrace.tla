---------------------------- MODULE ReportTrace ----------------------------
(* Validates what was shown.  Traces of kind "texts": rows [b, text];        *)
(* "pairs": rows [a, b, show, diff, texts]; others: a report of the plan     *)
(* with the patterns b1, b2 of its results, the rows shown, and the largest  *)
(* and smallest difference shown at the end.                                 *)
EXTENDS Report, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
T == Traces[t]
F == IF T.fmt = "d" THEN F64 ELSE F32
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Judge(o) ==
  CASE T.kind = "texts" -> IF o.text = BitText(F, o.b) THEN "ok" ELSE "is not the text of the number's bits"
    [] T.kind = "pairs" -> PairOK(F, o, o)
    [] OTHER -> IF i > T.n THEN "is one too many" ELSE RowOK(F, T, i, o)
Step == /\ verdict = "ok" /\ i <= Len(T.rows) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET v == Judge(T.rows[i]) IN verdict' = IF v = "ok" THEN v ELSE "row " \o ToString(i) \o " " \o v
Last == /\ verdict = "ok" /\ i = Len(T.rows) + 1 /\ i' = i + 1 /\ UNCHANGED t
        /\ verdict' = IF T.kind \in {"texts", "pairs"} THEN "ok" ELSE LET v == EndOK(T, Len(T.rows), T.max, T.min) IN IF v = "ok" THEN v ELSE "the report " \o v
Spec == Init /\ [][Step \/ Last]_vars
NoViolation == verdict = "ok"
\* the driver has to have passed on what the plan says
ASSUME Assert(\A k \in DOMAIN Traces : Traces[k].kind \in Functions \cup Objects =>
  Len(Traces[k].b1) = Traces[k].n /\ Len(Traces[k].b2) = Traces[k].n /\ Len(Traces[k].in1) = Traces[k].n, "driver: patterns missing")
=============================================================================
