--------------------------- MODULE ResponsesTrace ---------------------------
(* Validates recorded constructions: one step per call received by the       *)
(* function (lists above 300 elements: all calls in one step), then one step *)
(* for what the response holds.                                              *)
EXTENDS Responses, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)  \* kind, fmt, in1, in2, calls, rets, held1, held2, out, at1, at2, ato
VARIABLES t, i, phase, verdict
vars == <<t, i, phase, verdict>>
T == Traces[t]
Scalar == T.kind \in {"s1", "s2"}
Init == t \in DOMAIN Traces /\ i = 0 /\ phase = "call" /\ verdict = "ok"
CallOK(k) == LET c == T.calls[k] IN
  IF Scalar THEN (IF ScalarCallOK(T.in1, T.in2, k, c.a) THEN "ok" ELSE "the function was called with another argument than the next input")
  ELSE IF k > 1 THEN "the array function was called more than once"
  ELSE IF ArrayCallOK(T.in1, T.in2, c.n, c.a, c.b) THEN "ok" ELSE "the array function did not receive the whole input"
Batch == Len(T.calls) > 300
Call == /\ phase = "call" /\ verdict = "ok" /\ i < Len(T.calls) /\ UNCHANGED <<t, phase>>
        /\ IF Batch
           THEN /\ i' = Len(T.calls)
                /\ verdict' = IF \A k \in DOMAIN T.calls : CallOK(k) = "ok" THEN "ok" ELSE CallOK(CHOOSE k \in DOMAIN T.calls : CallOK(k) # "ok")
           ELSE /\ i' = i + 1 /\ verdict' = CallOK(i + 1)
Hold == /\ phase = "call" /\ verdict = "ok" /\ i = Len(T.calls) /\ phase' = "held" /\ UNCHANGED <<t, i>>
        /\ Assert(Len(T.in1) = Len(T.in2) \/ Len(T.in2) = 0, <<"driver", t>>)
        /\ verdict' = IF Scalar /\ Len(T.calls) # Len(T.in1) THEN "the function was not called for every input"
                      ELSE IF ~Scalar /\ Len(T.calls) = 0 /\ Len(T.in1) > 0 THEN "the array function was not called"
                      ELSE IF T.held1 # T.in1 \/ T.held2 # T.in2 THEN "the inputs held differ from those given"
                      ELSE IF T.out # T.rets THEN "the outputs held differ from what the function returned"
                      ELSE IF T.at1 # T.in1 \/ T.at2 # T.in2 \/ T.ato # T.rets THEN "the indexed values differ from those held"
                      ELSE "ok"
Spec == Init /\ [][Call \/ Hold]_vars
NoViolation == verdict = "ok"
=============================================================================
