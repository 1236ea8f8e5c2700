--------------------------- MODULE DescribedPlan ---------------------------
(* Prints the objects to write and the names, intervals and nicknames used.  *)
EXTENDS Described, Json, IOUtils
Names == <<"Exp", "Fast_Logf", "a = b", "two words", "x_y__z", "f(x)=x", "Comparison specs/function name = Sin", "">>
Counts == <<1, 2, 3, 10, 100>>
\* intervals in quarters: lower and upper limits
Intervals == << <<0, 4>>, <<-20000, 20000>>, <<-3, 1>>, <<5, 5>>, <<-8, -2>>, <<1, 400000>> >>
\* inputs of comparisons: everyday numbers, numbers that end exactly half way
\* between two printed ones, tiny, huge and special ones
Base(F) ==
  <<ZeroBits(F, 0), ZeroBits(F, 1), Enc(F, 0, 1, 0), Enc(F, 1, 3, 0), Enc(F, 0, 1, -1), Enc(F, 1, 12345, -3),
    Enc(F, 0, 5000, 0), Enc(F, 1, 5000, 0), Enc(F, 0, 1, -16), Enc(F, 0, 3, -16), Enc(F, 1, 1, -7), Enc(F, 0, 1, -8), Enc(F, 0, 9999999, -7),
    Enc(F, 0, 1, -20), Enc(F, 0, 1, -21), Enc(F, 1, 1, -22), Enc(F, 0, 1, -50), Enc(F, 0, 1, -51), Enc(F, 1, 1, -60), Enc(F, 0, 16777215, 0), Enc(F, 0, 16777215, 40),
    MinNormal(F, 0), MinSub(F, 1), MaxFinite(F, 0), MaxFinite(F, 1), InfBits(F, 0), InfBits(F, 1)>>
Fns == <<"Exp", "Expf", "Logv", "Logfv", "Atan2", "Atan2f", "Atan2v", "Atan2fv">>
Nicks == << <<"a", "bcd">>, <<"ref_run", "t">>, <<"n1", "n2">>, <<"same", "same">> >>
ASSUME JsonSerialize(IOEnv.PLAN, [names |-> Names, counts |-> Counts, intervals |-> Intervals, d |-> Base(F64), f |-> Base(F32), fns |-> Fns, nicks |-> Nicks])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
