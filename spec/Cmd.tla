-------------------------------- MODULE Cmd --------------------------------
(* The command-line grammar.  Arguments are sequences of characters.  An     *)
(* option has a short and a long name; the help option is always registered. *)
EXTENDS Integers, Sequences
Chars(s) == s           \* arguments are written as sequences of one-character strings
\* position of the first equals sign, 0 if there is none
RECURSIVE EqFrom(_, _)
EqFrom(a, i) == IF i > Len(a) THEN 0 ELSE IF a[i] = "=" THEN i ELSE EqFrom(a, i + 1)
EqPos(a) == EqFrom(a, 1)
\* an equals sign in front is part of the flag, there is nothing before it
FlagOf(a) == IF EqPos(a) > 1 THEN SubSeq(a, 1, EqPos(a) - 1) ELSE a
ValueOf(a) == IF EqPos(a) > 1 THEN SubSeq(a, EqPos(a) + 1, Len(a)) ELSE <<>>
\* the option an argument names, 0 if none; opts: sequence of [s, l]
OptOf(opts, a) == LET M == {k \in DOMAIN opts : FlagOf(a) \in {opts[k].s, opts[k].l}} IN
  IF M = {} THEN 0 ELSE CHOOSE k \in M : \A j \in M : k <= j
Parses(opts, args) ==
  /\ \A i \in DOMAIN args : OptOf(opts, args[i]) # 0
  /\ \A i, j \in DOMAIN args : i < j => OptOf(opts, args[i]) # OptOf(opts, args[j])
GivenAt(opts, args, k) == {i \in DOMAIN args : OptOf(opts, args[i]) = k}
IsSet(opts, args, k) == GivenAt(opts, args, k) # {}
Value(opts, args, k) == IF IsSet(opts, args, k) THEN ValueOf(args[CHOOSE i \in GivenAt(opts, args, k) : TRUE]) ELSE <<>>
=============================================================================
