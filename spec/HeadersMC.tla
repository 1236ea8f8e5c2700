----------------------------- MODULE HeadersMC -----------------------------
(* The preprocessor and the linker on a small set of headers.  Including a   *)
(* guarded header a second time adds nothing, an unguarded one redefines;    *)
(* a header that does not include what it needs works only after another.    *)
(* Checked: guarded, self-contained headers compile in every sequence and    *)
(* inline definitions link in any number of units.  With one header broken   *)
(* (Fault) some sequence of at most two inclusions already shows it, which   *)
(* is why all ordered pairs, not all sequences, have to be compiled.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Fault
Hd == {"common", "a", "b", "all"}
Needs(h) == CASE h = "a" -> {"common"} [] h = "b" -> {"common"} [] h = "all" -> {"a", "b"} [] OTHER -> {}
Guarded(h)   == ~(Fault = "guard" /\ h = "b")
Contains(h)  == IF Fault = "self" /\ h = "b" THEN {} ELSE Needs(h)
VARIABLES unit, defined, error
vars == <<unit, defined, error>>
\* order in which the headers come into effect when h is included
RECURSIVE Effect(_, _, _)
Effect(todo, def, err) ==
  IF todo = <<>> THEN [d |-> def, e |-> err]
  ELSE LET x == Head(todo) rest == Tail(todo) IN
       IF x.k = "enter" THEN
         IF x.h \in def /\ Guarded(x.h) THEN Effect(rest, def, err)
         ELSE LET c == Contains(x.h)
                  subs == IF x.h = "all" THEN << [k |-> "enter", h |-> "a"], [k |-> "enter", h |-> "b"] >>
                          ELSE IF "common" \in c THEN << [k |-> "enter", h |-> "common"] >> ELSE <<>>
              IN Effect(subs \o << [k |-> "body", h |-> x.h] >> \o rest, def, err)
       ELSE Effect(rest, def \cup {x.h}, err \/ x.h \in def \/ ~(Needs(x.h) \subseteq def))
Init == unit = <<>> /\ defined = {} /\ error = FALSE
Include(h) == /\ Len(unit) < MaxLen
              /\ unit' = Append(unit, h)
              /\ LET r == Effect(<< [k |-> "enter", h |-> h] >>, defined, error) IN defined' = r.d /\ error' = r.e
Next == \E h \in Hd : Include(h)
Spec == Init /\ [][Next]_vars
Compiles == ~error
=============================================================================
