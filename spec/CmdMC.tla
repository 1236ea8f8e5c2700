------------------------------- MODULE CmdMC -------------------------------
(* A parser that works through the characters of each argument once, as a    *)
(* state machine, against the declarative grammar, for all argument lists    *)
(* over a small alphabet.                                                    *)
EXTENDS Cmd, FiniteSets
CONSTANTS MaxChars, MaxArgs, Mode
VARIABLES args, n, pos, flag, val, inval, recv, result
vars == <<args, n, pos, flag, val, inval, recv, result>>
Alphabet == {"-", "n", "="}
Opts == <<[s |-> <<"-", "h">>, l |-> <<"-", "-", "h">>], [s |-> <<"-", "n">>, l |-> <<"-", "-", "n">>], [s |-> <<"n">>, l |-> <<"n", "-">>]>>
Words == UNION {[1..k -> Alphabet] : k \in 0..MaxChars}
Init == /\ args \in UNION {[1..k -> Words] : k \in 0..MaxArgs}
        /\ n = 1 /\ pos = 1 /\ flag = <<>> /\ val = <<>> /\ inval = FALSE /\ recv = <<>> /\ result = "running"
Arg == args[n]
Char == /\ result = "running" /\ n <= Len(args) /\ pos <= Len(Arg)
        /\ IF ~inval /\ Arg[pos] = "=" /\ pos > 1
           THEN inval' = TRUE /\ UNCHANGED <<flag, val>>
           ELSE IF inval
           THEN (IF Mode = "lasteq" /\ Arg[pos] = "=" THEN flag' = flag \o <<"=">> \o val /\ val' = <<>> ELSE val' = Append(val, Arg[pos]) /\ UNCHANGED flag) /\ UNCHANGED inval
           ELSE flag' = Append(flag, Arg[pos]) /\ UNCHANGED <<val, inval>>
        /\ pos' = pos + 1 /\ UNCHANGED <<args, n, recv, result>>
K == LET M == {k \in DOMAIN Opts : flag \in {Opts[k].s, Opts[k].l}} IN IF M = {} THEN 0 ELSE CHOOSE k \in M : \A j \in M : k <= j
Key(k) == IF Mode = "bynames" THEN flag ELSE Opts[k].s        \* how duplicates are recognised
EndArg == /\ result = "running" /\ n <= Len(args) /\ pos > Len(Arg)
          /\ IF K = 0 THEN result' = "fail" /\ UNCHANGED recv
             ELSE IF \E r \in {recv[j] : j \in DOMAIN recv} : r.key = Key(K) THEN result' = "fail" /\ UNCHANGED recv
             ELSE recv' = Append(recv, [key |-> Key(K), opt |-> K, val |-> val]) /\ UNCHANGED result
          /\ n' = n + 1 /\ pos' = 1 /\ flag' = <<>> /\ val' = <<>> /\ inval' = FALSE /\ UNCHANGED args
Finish == /\ result = "running" /\ n > Len(args) /\ result' = "ok" /\ UNCHANGED <<args, n, pos, flag, val, inval, recv>>
Next == Char \/ EndArg \/ Finish
Spec == Init /\ [][Next]_vars
Verdict == result # "running" => (result = "ok") = Parses(Opts, args)
Got == result = "ok" => \A k \in DOMAIN Opts :
   LET R == {j \in DOMAIN recv : recv[j].opt = k} IN
   (R # {}) = IsSet(Opts, args, k) /\ (R # {} => recv[CHOOSE j \in R : TRUE].val = Value(Opts, args, k))
=============================================================================
