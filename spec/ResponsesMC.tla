---------------------------- MODULE ResponsesMC ----------------------------
(* Construction of a response for every input list over two values, against  *)
(* every function (it may answer the same argument differently each time).   *)
(* Modes: "plain" evaluates in order; "cached" reuses the answer for an      *)
(* argument seen before; "reverse" evaluates from the end; "twice" calls     *)
(* once more to size the result.                                             *)
EXTENDS Responses, FiniteSets, SequencesExt
CONSTANTS Mode, MaxLen
VARIABLES input, calls, rets, out
vars == <<input, calls, rets, out>>
Vals == {1, 2}
Ans == {3, 4}
Init == input \in UNION {[1..n -> Vals] : n \in 0..MaxLen} /\ calls = <<>> /\ rets = <<>> /\ out = <<>>
Done == Len(out) = Len(input)
k == Len(out) + 1
Cached == Mode = "cached" /\ \E j \in 1..(k - 1) : input[j] = input[k]
ArgNow == IF Mode = "reverse" THEN input[Len(input) + 1 - k] ELSE input[k]
Reuse == /\ ~Done /\ Cached /\ UNCHANGED <<input, calls, rets>>
         /\ out' = Append(out, out[CHOOSE j \in 1..(k - 1) : input[j] = input[k]])
Call == /\ ~Done /\ ~Cached
        /\ \E y \in Ans :
             /\ calls' = Append(calls, <<ArgNow>>) /\ rets' = Append(rets, y)
             /\ out' = IF Mode = "twice" /\ Len(calls) = 0 THEN out ELSE IF Mode = "reverse" THEN <<y>> \o out ELSE Append(out, y)
        /\ UNCHANGED input
Next == Reuse \/ Call
Spec == Init /\ [][Next]_vars
InOrder == \A j \in DOMAIN calls : ScalarCallOK(input, <<>>, j, calls[j])
Holds == Done => Len(calls) = Len(input) /\ out = rets
=============================================================================
