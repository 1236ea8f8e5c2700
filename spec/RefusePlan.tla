----------------------------- MODULE RefusePlan -----------------------------
(* Prints the command lines: for the benchmark and timing programs all lists *)
(* of up to three arguments of a vocabulary, for the comparison every        *)
(* combination of nickname, lists and one further argument.  Left out are    *)
(* complete command lines that would run on the default sizes.               *)
EXTENDS Refuse, Json, IOUtils, SequencesExt
Eq(o, v) == {o.s \o <<"=">> \o v, o.l \o <<"=">> \o v}
Bare(o) == {o.s, o.l}
Bad == {<<"-", "x">>, <<"n", "i", "c", "k", "=", "a">>, <<"-", "N", "=", "a">>, <<"-", "-", "n", "i", "c", "k", "s", "=", "a">>, <<"-", "-", "n", "i", "c", "=", "a">>, <<"-", "n", "a">>, <<>>}
Small == {<<Size.s[1], Size.s[2], "=", "2">>, Size.l \o <<"=", "3">>}
Common == Eq(Nick, <<"a">>) \cup Eq(Nick, <<>>) \cup Bare(Nick) \cup {<<"-", "n", "=", "b", "=", "c">>} \cup Bare(Help) \cup Bad \cup Small
Lists(V) == {<<>>} \cup {<<a>> : a \in V} \cup {<<a, b>> : a, b \in V}
Triples(A, B, C) == {<<a, b, c>> : a \in A, b \in B, c \in C}
Bench == Lists(Common) \cup Triples(Eq(Nick, <<"a">>), Small, Common)
Few == {<<"-", "r", "=", "1">>}
Words == {<<"-", "M", "=", "9">>, <<"-", "-", "p", "o", "o", "l", "_", "m", "i", "n", "=", "1">>, <<"-", "-", "p", "a", "t", "t", "e", "r", "n", "=", "E", "x", "p">>, <<"-", "M", "=", "9">>, <<"-", "P", "=", "9">>, <<"-", "-", "p", "o", "o", "l", "=", "9">>, <<"-", "r">>, <<"-", "r", "=", "1">>}
Perf == Lists(Common) \cup {<<a, s, r, w>> : a \in Eq(Nick, <<"a">>) \cup {<<"-", "n">>}, s \in {<<"-", "s", "=", "2">>}, r \in Few, w \in Words \cup Common}
Files(c) == LET F(k) == <<c, k>> IN {<<>>, F("1"), F("1") \o <<",">> \o F("2"), F("1") \o <<",">> \o F("2") \o <<",">> \o F("3")}
Part(o, vs) == {<<>>} \cup {<<o.s>>} \cup {<<x>> : x \in UNION {Eq(o, v) : v \in vs}}
Compare == {n \o r \o t \o e : n \in {<<>>, <<Nick.s>>, <<Nick.l \o <<"=", "o">>>>, <<Nick.s \o <<"=", "o">>>>}, r \in Part(Ref, Files("r")), t \in Part(Test, Files("t")), e \in {<<>>, <<Help.l>>, <<<<"-", "x">>>>, <<Nick.l \o <<"=", "p">>>>}}
Given(prog, args) == Parses(Options(prog), args) /\ Value(Options(prog), args, 3) # <<>>
Cheap(prog, args) == Accepts(prog, args) /\ prog # "compare" => Given(prog, args) /\ (prog = "perf" => Value(Options(prog), args, 4) # <<>>)
Case(prog, args) == [prog |-> prog, args |-> args, nick |-> IF Accepts(prog, args) THEN Value(Options(prog), args, 2) ELSE <<>>]
Cases(prog, S) == {Case(prog, a) : a \in {x \in S : Cheap(prog, x)}}
All == SetToSeq(Cases("bench", Bench) \cup Cases("perf", Perf) \cup Cases("compare", Compare \cup {Reverse(x) : x \in Compare}))
ASSUME JsonSerialize(IOEnv.PLAN, [cases |-> All])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
