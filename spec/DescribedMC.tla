----------------------------- MODULE DescribedMC -----------------------------
(* An object of N values is written and the file read and written again, any *)
(* number of times.  Lines are tokens: "first" (where the file came from),   *)
(* "prec", "h3", "h4", "h5", "data".  A reader takes everything after five   *)
(* lines as data; a writer that has read a file puts a new first line before *)
(* the rest of that file.  Variants: "right"; "whole" keeps the old first    *)
(* line too; "short" drops the line after it; "count" writes one line more   *)
(* than the reader skips.                                                    *)
EXTENDS Naturals, Sequences
CONSTANTS Variant, MaxN, MaxSteps
VARIABLES n, file, steps, got
vars == <<n, file, steps, got>>
Fresh(k) == <<"first", "prec", "h3", "h4", "h5">> \o (IF Variant = "count" THEN <<"h6">> ELSE <<>>) \o [j \in 1..k |-> "data"]
Init == n \in 0..MaxN /\ file = Fresh(n) /\ steps = 0 /\ got = n
Data(f) == SelectSeq(SubSeq(f, 6, Len(f)), LAMBDA l : TRUE)
Again(f) ==
  CASE Variant = "whole" -> <<"first">> \o f
    [] Variant = "short" -> <<"first">> \o SubSeq(f, 3, Len(f))
    [] OTHER -> <<"first">> \o SubSeq(f, 2, Len(f))
Copy == steps < MaxSteps /\ steps' = steps + 1 /\ got' = Len(Data(file)) /\ file' = Again(file) /\ UNCHANGED n
Spec == Init /\ [][Copy]_vars
Described == /\ Len(file) >= 5
             /\ SubSeq(file, 1, 5) = <<"first", "prec", "h3", "h4", "h5">>
             /\ got = n /\ Len(Data(file)) = n /\ \A k \in 6..Len(file) : file[k] = "data"
=============================================================================
