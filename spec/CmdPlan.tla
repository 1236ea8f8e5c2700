------------------------------ MODULE CmdPlan ------------------------------
(* Tables of options and argument lists.  The words of a table are its       *)
(* flags, near misses of them, and combinations with values.                 *)
EXTENDS Cmd, Json, IOUtils, SequencesExt, TLC
Opt(s, l) == [s |-> s, l |-> l]
Tables == <<
  <<Opt(<<"-", "n">>, <<"-", "-", "n", "i", "c", "k">>), Opt(<<"-", "s">>, <<"-", "-", "s", "i", "z", "e">>)>>,
  <<Opt(<<"-", "a">>, <<"-", "-", "a", "b">>), Opt(<<"-", "a", "b">>, <<"-", "-", "a">>), Opt(<<"-", "-">>, <<"-">>)>>,
  <<Opt(<<"a">>, <<"a", "l", "l">>), Opt(<<"-", "n">>, <<"n">>), Opt(<<"-", "N">>, <<"-", "-", "N">>), Opt(<<"-", "x", "-", "y">>, <<"-", "-", "x", " ", "y">>)>>,
  << >> >>
Help == Opt(<<"-", "h">>, <<"-", "-", "h", "e", "l", "p">>)
All(t) == <<Help>> \o Tables[t]
Flags(t) == {All(t)[k].s : k \in DOMAIN All(t)} \cup {All(t)[k].l : k \in DOMAIN All(t)}
\* near misses: first or last character dropped, one more, other case, nothing
Misses(t) == ({Tail(f) : f \in Flags(t)} \cup {SubSeq(f, 1, Len(f) - 1) : f \in Flags(t)} \cup {Append(f, "x") : f \in Flags(t)}
              \cup {<<"-">> \o f : f \in Flags(t)} \cup {<<"=">> \o f : f \in Flags(t)} \cup {<< >>, <<" ">> , <<"-", "Q">>, <<"=">>}) \ Flags(t)
Values == {<< >>, <<"7">>, <<"=">>, <<"a", "=", "b">>, <<"-", "s">>, <<"=", "-", "n">>, <<" ", "x", " ">>, <<"1", ",", "2">>}
Words(t) == Flags(t) \cup Misses(t) \cup {f \o <<"=">> \o v : f \in Flags(t), v \in Values} \cup {f \o <<"=">> \o v : f \in Misses(t), v \in {<< >>, <<"7">>}}
\* for longer lists: mostly parsable words
Good(t) == Flags(t) \cup {f \o <<"=">> \o v : f \in Flags(t), v \in Values}
Singles(t) == {<<w>> : w \in Words(t)}
Pairs(t) == {<<v, w>> : v \in Good(t), w \in Words(t)}
RECURSIVE Rand(_, _)
Rand(t, k) == IF k = 0 THEN << >> ELSE <<RandomElement(IF RandomElement(1..12) = 1 THEN Words(t) ELSE Good(t))>> \o Rand(t, k - 1)
Longer(t) == [j \in 1..(IF IOEnv.TIER = "quick" THEN 1500 ELSE 20000) |-> Rand(t, RandomElement(2..5))]
Lists(t) == << << >> >> \o SetToSeq(Singles(t)) \o SetToSeq(Pairs(t)) \o (IF Tables[t] = << >> THEN << >> ELSE Longer(t))
ASSUME JsonSerialize(IOEnv.PLAN, [t \in DOMAIN Tables |-> [opts |-> All(t), lists |-> Lists(t)]])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
