---------------------------- MODULE HeadersTrace ----------------------------
(* Validates what compiler, linker and library delivered.  The trace is one  *)
(* behaviour in three phases:                                                *)
(*  unit  a sequence of headers compiled with all it provides used           *)
(*  obj   an object joins the program: its strong definitions may not have   *)
(*        been defined before                                                *)
(*  sym   the program is complete: a needed symbol of the library            *)
(*  lib   a declared array function and how often the library defines it     *)
(*  val   a value computed in one of the units: the same in every unit, and  *)
(*        the array function agrees with the scalar one                      *)
EXTENDS Headers, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
Seed == LET s == IOEnv.SEEDN IN IF s = "" THEN 1 ELSE atoi(s)
All == TLCEval(Units(IOEnv.TIER, Seed))
VARIABLES i, unitsDone, defined, libs, values, verdict
vars == <<i, unitsDone, defined, libs, values, verdict>>
Init == i = 1 /\ unitsDone = 0 /\ defined = {} /\ libs = {} /\ values = <<>> /\ verdict = "ok"
Unit(e) == /\ e.k = "unit"
           /\ Assert(unitsDone < Len(All) /\ e.seq = All[unitsDone + 1].seq /\ e.how = All[unitsDone + 1].how, <<"driver", e>>)
           /\ unitsDone' = unitsDone + 1
           /\ verdict' = IF e.ok = 1 THEN "ok" ELSE "does not compile"
           /\ UNCHANGED <<defined, libs, values>>
Obj(e)  == /\ e.k = "obj"
           /\ LET s == {e.strong[j] : j \in DOMAIN e.strong} IN
              /\ defined' = defined \cup s
              /\ verdict' = IF s \cap defined = {} THEN "ok" ELSE "defined in more than one unit"
           /\ UNCHANGED <<unitsDone, libs, values>>
Linked(e) == /\ e.k = "link" /\ verdict' = (IF e.ok = 1 THEN "ok" ELSE "does not link")
             /\ UNCHANGED <<unitsDone, defined, libs, values>>
Sym(e)  == /\ e.k = "sym" /\ verdict' = (IF e.sym \in defined THEN "ok" ELSE "needed but not defined")
           /\ UNCHANGED <<unitsDone, defined, libs, values>>
Lib(e)  == /\ e.k = "lib" /\ libs' = libs \cup {e.name}
           /\ verdict' = (IF e.count = 1 THEN "ok" ELSE "declared array function not defined exactly once in the library")
           /\ UNCHANGED <<unitsDone, defined, values>>
Val(e)  == /\ e.k = "val"
           /\ verdict' = IF e.arr # e.sc THEN "array function differs from the scalar function"
                         ELSE IF e.name \in DOMAIN values /\ values[e.name] # e.y THEN "value depends on the unit" ELSE "ok"
           /\ values' = IF e.name \in DOMAIN values THEN values ELSE (e.name :> e.y) @@ values
           /\ UNCHANGED <<unitsDone, defined, libs>>
Step == /\ verdict = "ok" /\ i <= Len(Events) /\ i' = i + 1
        /\ LET e == Events[i] IN Unit(e) \/ Obj(e) \/ Linked(e) \/ Sym(e) \/ Lib(e) \/ Val(e)
Spec == Init /\ [][Step]_vars
NoViolation == verdict = "ok"
\* at the end everything planned has been seen
Complete == (verdict = "ok" /\ i > Len(Events)) =>
   /\ unitsDone = Len(All)
   /\ \A a \in DOMAIN ArrayNames : ArrayNames[a].name \in libs
=============================================================================
