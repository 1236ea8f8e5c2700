------------------------------ MODULE CmdTrace ------------------------------
(* Validates recorded parses: one behaviour per table of options, one step   *)
(* per parse by a fresh parser.                                              *)
EXTENDS Cmd, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)     \* opts, parses: [args, ok, set, val, uset, uval]
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
O == Traces[t].opts
Judge(p) ==
  IF (p.ok # 0) # Parses(O, p.args)
  THEN (IF p.ok # 0 THEN "an inadmissible command line was accepted" ELSE "an admissible command line was rejected")
  ELSE IF p.ok = 0 THEN "ok"
  ELSE IF \E k \in DOMAIN O : (p.set[k] = 1) # IsSet(O, p.args, k) THEN "an option is set although it was not given, or the reverse"
  ELSE IF \E k \in DOMAIN O : p.val[k] # Value(O, p.args, k) THEN "an option has another value than the one given"
  ELSE IF p.uset # 0 \/ p.uval # << >> THEN "an option that does not exist is set"
  ELSE "ok"
Parse == /\ verdict = "ok" /\ i <= Len(Traces[t].parses)
         /\ Assert(Len(Traces[t].parses[i].set) = Len(O), <<"driver", t, i>>)
         /\ verdict' = Judge(Traces[t].parses[i]) /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Parse]_vars
NoViolation == verdict = "ok"
=============================================================================
