---------------------------- MODULE VcWrapTrace ----------------------------
(* Validates what the wrappers did.  Traces:                                 *)
(*  [kind "names",  obs of [name, there]]        the functions of the tree   *)
(*  [kind "scalar", base, fmt, w, obs of [inp, out, end]]                    *)
(*  [kind "array",  base, fmt, w, obs of [n, place, inp, out, around, moved, end]] *)
(*  [kind "giant",  base, fmt, w, obs of [wrong, around, moved, end]]        *)
(*  [kind "list",   fmt, obs of [name, pool, there, inp, out]]               *)
EXTENDS VcWrap, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, verdict
vars == <<t, i, verdict>>
Init == t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
Known(name) == \E k \in 1..32 : Names[k].name = name
Entry(name) == CHOOSE k \in 1..32 : Entries[k].name = name
Judge(T, o) ==
  CASE T.kind = "names" -> IF o.there = 1 THEN "ok" ELSE "the function is missing"
    [] T.kind = "scalar" -> IF o.end = "returned" /\ o.out = Value(T.base, o.inp) THEN "ok" ELSE "wrong value"
    [] T.kind = "array" -> IF CallOK(T.base, o) THEN "ok"
                           ELSE IF o.end # "returned" THEN "the call did not return"
                           ELSE IF o.around # 0 THEN "written outside of the results"
                           ELSE IF o.moved # 0 THEN "the arguments were changed" ELSE "wrong values"
    [] T.kind = "giant" -> IF o.end = "returned" /\ o.wrong = 0 /\ o.around = 0 /\ o.moved = 0 THEN "ok" ELSE "wrong values in a long array"
    [] T.kind = "list" -> LET e == Entries[Entry(o.name)] IN
         IF o.there # 1 THEN "the entry is missing or there several times"
         ELSE IF o.pool # Pool(e.base) THEN "inputs from another pool"
         ELSE IF CallOK(e.base, [end |-> "returned", around |-> 0, moved |-> 0, inp |-> o.inp, out |-> o.out]) THEN "ok" ELSE "another function"
Step == /\ verdict = "ok" /\ i <= Len(Traces[t].obs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET T == Traces[t]  o == T.obs[i] IN
           /\ Assert(IF T.kind = "names" THEN Known(o.name)
                     ELSE IF T.kind = "list" THEN \E k \in 1..32 : Entries[k].name = o.name /\ Entries[k].fmt = T.fmt
                     ELSE T.kind = "array" => Len(o.inp) = o.n /\ Cardinality({o.inp[a] : a \in DOMAIN o.inp}) = o.n, <<"driver", T.kind, o>>)
           /\ verdict' = Judge(T, o)
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
=============================================================================
