----------------------------- MODULE PureTrace -----------------------------
(* Validates recorded calls against purity.  State: for every call (function *)
(* and argument) the result it is bound to, once it has been observed.  The  *)
(* first observation binds; any later one, in whatever history, process or   *)
(* thread, has to agree.  The control words of the calling thread may never  *)
(* change across a call.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Head1  == ndJsonDeserialize(IOEnv.TRACE)[1]    \* [keys: number of calls, names: their names]
Events == Tail(ndJsonDeserialize(IOEnv.TRACE))
\* event: [h: history, key, prev, y: result limbs, e0, e1: control words before and after]
VARIABLES i, val, verdict
vars == <<i, val, verdict>>
Unbound == <<>>
Init == i = 1 /\ val = [k \in 1..Head1.keys |-> Unbound] /\ verdict = "ok"
Observe == /\ verdict = "ok" /\ i <= Len(Events)
           /\ LET ev == Events[i] IN
              /\ Assert(ev.key \in 1..Head1.keys, <<"driver", ev>>)
              /\ \/ /\ ev.e0 = ev.e1
                    /\ val[ev.key] = Unbound
                    /\ ev.h = "fresh"
                    /\ val' = [val EXCEPT ![ev.key] = ev.y]
                    /\ verdict' = "ok"
                 \/ /\ ev.e0 = ev.e1
                    /\ ev.h = "fresh" => val[ev.key] # Unbound
                    /\ val[ev.key] = ev.y
                    /\ verdict' = "ok" /\ UNCHANGED val
                 \/ /\ ev.e0 # ev.e1
                    /\ verdict' = "floating-point environment changed" /\ UNCHANGED val
                 \/ /\ ev.e0 = ev.e1 /\ val[ev.key] # Unbound /\ val[ev.key] # ev.y
                    /\ verdict' = "result differs from the first observation" /\ UNCHANGED val
           /\ i' = i + 1
Spec == Init /\ [][Observe]_vars
NoViolation == verdict = "ok"
=============================================================================
