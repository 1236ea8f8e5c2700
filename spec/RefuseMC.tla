------------------------------ MODULE RefuseMC ------------------------------
(* A program that looks at its options one after the other and opens its     *)
(* output when it starts working: nickname, then the sizes of two lists.     *)
(* Variants: "right"; "early" opens the output before the last question;     *)
(* "longer" only refuses a test list that is longer; "last" only asks for    *)
(* the last of the options.                                                  *)
EXTENDS Naturals
CONSTANTS Variant, MaxLen
VARIABLES nick, refs, tests, pc, written
vars == <<nick, refs, tests, pc, written>>
Init == nick \in BOOLEAN /\ refs \in 0..MaxLen /\ tests \in 0..MaxLen /\ pc = "nick" /\ written = FALSE
Complete == nick /\ refs > 0 /\ refs = tests
Ask(from, to, good) == /\ pc = from
                       /\ pc' = IF good THEN to ELSE "refused"
                       /\ UNCHANGED <<nick, refs, tests>>
Fine(b) == b \/ Variant = "last"
Step == \/ Ask("nick", "refs", Fine(nick)) /\ UNCHANGED written
        \/ Ask("refs", "tests", Fine(refs > 0)) /\ UNCHANGED written
        \/ Ask("tests", "equal", Fine(tests > 0)) /\ written' = (Variant = "early")
        \/ Ask("equal", "work", IF Variant = "longer" THEN tests <= refs ELSE tests = refs) /\ UNCHANGED written
        \/ pc = "work" /\ pc' = "done" /\ written' = TRUE /\ UNCHANGED <<nick, refs, tests>>
Spec == Init /\ [][Step]_vars
Refused == written => Complete
Acted == pc = "done" => Complete /\ written
NotRefused == Complete => pc # "refused"
=============================================================================
