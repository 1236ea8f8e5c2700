------------------------------- MODULE Refuse -------------------------------
(* Which command lines the three programs act on.  Arguments are sequences   *)
(* of one-character strings, as in the grammar of the parser.                *)
EXTENDS Cmd, FiniteSets
O(s, l) == [s |-> s, l |-> l]
Help == O(<<"-", "h">>, <<"-", "-", "h", "e", "l", "p">>)
Nick == O(<<"-", "n">>, <<"-", "-", "n", "i", "c", "k">>)
Size == O(<<"-", "s">>, <<"-", "-", "s", "i", "z", "e">>)
Reps == O(<<"-", "r">>, <<"-", "-", "r", "e", "p", "e", "t", "i", "t", "i", "o", "n", "s">>)
Upper == O(<<"-", "M">>, <<"-", "-", "p", "o", "o", "l", "_", "m", "a", "x">>)
Lower == O(<<"-", "m">>, <<"-", "-", "p", "o", "o", "l", "_", "m", "i", "n">>)
Pattern == O(<<"-", "p">>, <<"-", "-", "p", "a", "t", "t", "e", "r", "n">>)
Ref == O(<<"-", "R">>, <<"-", "-", "r", "e", "f", "e", "r", "e", "n", "c", "e">>)
Test == O(<<"-", "T">>, <<"-", "-", "t", "e", "s", "t">>)
\* position 1 is help, position 2 the nickname
Options(prog) == CASE prog = "bench" -> <<Help, Nick, Size>>
                   [] prog = "perf" -> <<Help, Nick, Size, Reps, Upper, Lower, Pattern>>
                   [] prog = "compare" -> <<Help, Nick, Ref, Test>>
\* entries of a comma-separated list without empty entries
Entries(v) == IF v = <<>> THEN 0 ELSE 1 + Cardinality({i \in DOMAIN v : v[i] = ","})
Asks(prog, args) == Parses(Options(prog), args) /\ IsSet(Options(prog), args, 1)
Accepts(prog, args) ==
  LET o == Options(prog) V(k) == Value(o, args, k) IN
  /\ Parses(o, args)
  /\ ~IsSet(o, args, 1)
  /\ V(2) # <<>>
  /\ prog = "compare" => Entries(V(3)) > 0 /\ Entries(V(3)) = Entries(V(4))
\* observed: code (the exit status, negative if killed), said (something was
\* printed), listed (the flags found in what was printed), written (names of new or
\* changed files), lost (names of files that are gone)
\* names of files are sequences of characters too
Before(prog) == IF prog = "compare" THEN <<"c", "o", "m", "p", "a", "r", "i", "s", "o", "n", "_", "_">> ELSE <<>>
Begins(name, prog, nick) == LET p == Before(prog) \o nick \o <<"_", "_">> IN Len(name) > Len(p) /\ SubSeq(name, 1, Len(p)) = p
Judge(prog, args, o) ==
  IF o.code < 0 THEN "the program was killed"
  ELSE IF o.lost # <<>> THEN "a file was removed"
  ELSE IF Accepts(prog, args)
  THEN IF o.written = <<>> THEN "a complete command line was not acted on"
       ELSE IF \E i \in DOMAIN o.written : ~Begins(o.written[i], prog, Value(Options(prog), args, 2)) THEN "a file of another nickname was written"
       ELSE "ok"
  ELSE IF o.written # <<>> THEN "a file was written although the command line is not complete"
  ELSE IF o.said = 0 THEN "nothing was said"
  ELSE IF Asks(prog, args) /\ \E k \in DOMAIN Options(prog) : Options(prog)[k].s \notin {o.listed[i] : i \in DOMAIN o.listed} \/ Options(prog)[k].l \notin {o.listed[i] : i \in DOMAIN o.listed}
  THEN "the help does not list every option"
  ELSE "ok"
=============================================================================
