---------------------------- MODULE InputsTrace ----------------------------
(* Validates what the programs were observed to do.                          *)
(* kind "timed": run and entries [name, mean, o] in the order of the report, *)
(* twin: the trace of the same run with the defaults given, 0 if none;       *)
(* kind "bench": size and entries [name, o]; kind "table":                   *)
(* entries [name, pools, missed].                                            *)
EXTENDS Inputs, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
Known == TLCEval([n \in {f.name : f \in Timed} |-> CHOOSE f \in Timed : f.name = n])
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Judge(e) ==
  IF e.name \notin DOMAIN Known THEN "ok"
  ELSE LET f == Known[e.name] IN
    CASE T.kind = "timed" -> LET v == Measured(f, T.run, e.o, e.mean) IN
           IF v # "ok" \/ T.twin = 0 \/ ~Seen(f) THEN v
           ELSE IF \E j \in DOMAIN Traces[T.twin].entries : Traces[T.twin].entries[j].name = e.name /\ Traces[T.twin].entries[j].o.evals # e.o.evals
           THEN "was not evaluated as often as with the default values given" ELSE "ok"
      [] T.kind = "bench" -> Benchmarked(f, T.size, e.o)
      [] T.kind = "table" -> IF e.pools # Pools(f) THEN "is paired with the inputs of another function"
                            ELSE IF e.missed # 0 THEN "is the name of another function" ELSE "ok"
\* the functions that the tables and programs offer; only the tables and the
\* timing program have the identity of two arguments
Offered(k) ==
  CASE Traces[k].kind = "timed" -> IF Traces[k].run.pattern = "" THEN DOMAIN Known ELSE {}
    [] Traces[k].kind = "bench" -> {f.name : f \in Benched}
    [] Traces[k].kind = "table" -> DOMAIN Known
Missing(k) == Offered(k) \ {Traces[k].entries[j].name : j \in DOMAIN Traces[k].entries}
Step == /\ verdict = "ok" /\ i <= Len(T.entries) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET v == Judge(T.entries[i]) IN verdict' = IF v = "ok" THEN v ELSE T.entries[i].name \o " " \o v
Last == /\ verdict = "ok" /\ i = Len(T.entries) + 1 /\ i' = i + 1 /\ UNCHANGED t
        /\ verdict' = IF Missing(t) = {} THEN "ok" ELSE (CHOOSE n \in Missing(t) : TRUE) \o " is missing"
Spec == Init /\ [][Step \/ Last]_vars
NoViolation == verdict = "ok"
=============================================================================
