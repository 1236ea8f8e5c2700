---------------------------- MODULE UfuncTrace ----------------------------
(* Validates what the module offers and what its loops did.  Traces:         *)
(*  [kind "names", obs of [name, there, nin, nout, kinds]]                   *)
(*  [kind "calls", name, fmt, obs of [n, steps, place, out, around, moved, end]] *)
(*  [kind "giant", name, fmt, obs of [total, bad, end]]  contiguous arrays of *)
(*        2^32 + 3 elements; total in two 16-bit parts                       *)
EXTENDS Ufunc, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
NameVerdict(o) == LET f == Function(o.name) IN
  IF o.there # 1 THEN "the function is missing"
  ELSE IF o.nin # f.nin \/ o.nout # f.nout THEN "another number of arguments or results"
  ELSE IF {o.kinds[k] : k \in DOMAIN o.kinds} # {"f", "d"} THEN "a precision is missing" ELSE "ok"
Judge(T, o) ==
  CASE T.kind = "names" -> NameVerdict(o)
    [] T.kind = "calls" -> CallVerdict(Function(T.name), T.fmt, o)
    [] T.kind = "giant" -> IF o.end = "returned" /\ o.total = <<65536, 3>> /\ o.bad = 0 THEN "ok" ELSE "not all elements of a long array"
Step == /\ verdict = "ok" /\ i <= Len(Traces[t].obs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET T == Traces[t]  o == T.obs[i] IN
           /\ Assert(IF T.kind = "names" THEN Known(o.name)
                     ELSE Known(T.name) /\ T.fmt \in {"f", "d"} /\
                          (T.kind = "calls" /\ o.end = "returned" => LET f == Function(T.name) IN
                             /\ Len(o.steps) = f.nin + f.nout /\ Len(o.out) = f.nout /\ \A r \in 1..f.nout : Len(o.out[r]) = o.n), <<"driver", T.kind, o>>)
           /\ verdict' = Judge(T, o)
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
