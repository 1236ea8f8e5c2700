------------------------------- MODULE PureMC -------------------------------
(* Concurrent calls as micro steps.  Every call loads its argument, reduces  *)
(* it into a temporary, evaluates from the temporary and returns.            *)
(* Variants:                                                                 *)
(*  private  each thread has its own temporary; every interleaving of every  *)
(*           history returns f(arg) and keeps the control word               *)
(*  shared   one temporary for all threads: interleavings mix it up          *)
(*  memo     each thread keeps its last result and reuses it for arguments   *)
(*           that agree in a shortened key: a history of one thread shows it *)
(*  control  the reduction changes the control word and does not restore it  *)
(* The last three must be rejected, which shows that the histories explored  *)
(* here tell them from the first.                                            *)
EXTENDS Integers, Sequences
CONSTANTS Threads, Args, MaxCalls, Variant
VARIABLES pc, arg, tmp, memo, ret, ncalls, ctl
vars == <<pc, arg, tmp, memo, ret, ncalls, ctl>>
f(a) == 3 * (a + 1) + 1
Short(a) == a \div 2
Slot(t) == IF Variant = "shared" THEN 0 ELSE t
Init == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0]
        /\ tmp = [s \in {0} \cup Threads |-> 0] /\ ret = [t \in Threads |-> 0]
        /\ memo = [t \in Threads |-> [key |-> -1, val |-> 0]]
        /\ ncalls = [t \in Threads |-> 0]
        /\ ctl = [t \in Threads |-> "default"]
Begin(t) == /\ pc[t] \in {"idle", "done"} /\ ncalls[t] < MaxCalls
            /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a]
            /\ pc' = [pc EXCEPT ![t] = "reduce"] /\ ncalls' = [ncalls EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<tmp, memo, ret, ctl>>
Reduce(t) == /\ pc[t] = "reduce" /\ tmp' = [tmp EXCEPT ![Slot(t)] = arg[t] + 1]
             /\ ctl' = [ctl EXCEPT ![t] = IF Variant = "control" THEN "changed" ELSE @]
             /\ pc' = [pc EXCEPT ![t] = "eval"] /\ UNCHANGED <<arg, memo, ret, ncalls>>
Value(t) == IF Variant = "memo" /\ memo[t].key = Short(arg[t]) THEN memo[t].val ELSE 3 * tmp[Slot(t)] + 1
Eval(t) == /\ pc[t] = "eval" /\ ret' = [ret EXCEPT ![t] = Value(t)]
           /\ memo' = IF Variant = "memo" THEN [memo EXCEPT ![t] = [key |-> Short(arg[t]), val |-> Value(t)]] ELSE memo
           /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<arg, tmp, ncalls, ctl>>
Next == \E t \in Threads : Begin(t) \/ Reduce(t) \/ Eval(t)
Spec == Init /\ [][Next]_vars
Pure == \A t \in Threads : pc[t] = "done" => ret[t] = f(arg[t])
EnvKept == \A t \in Threads : pc[t] = "done" => ctl[t] = "default"
=============================================================================
