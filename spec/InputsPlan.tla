----------------------------- MODULE InputsPlan -----------------------------
(* Prints the invocations of the timing and benchmark programs.  An option   *)
(* that is not given has the default the help text states.                   *)
EXTENDS Inputs, Json, IOUtils
Given(size, reps, min, max, low, high, opts, pattern) ==
  [size |-> size, reps |-> reps, min |-> min, max |-> max, low |-> low, high |-> high, opts |-> opts, pattern |-> pattern]
Lo == N(1, 5000, 0)   Hi == N(0, 5000, 0)   QL == N(1, 2500, 0)   QH == N(0, 2500, 0)
Runs == <<
  Given(1, 1, Lo, Hi, QL, QH, {"s", "r"}, ""),
  Given(7, 3, Lo, Hi, QL, QH, {"s", "r"}, ""),
  Given(500, 2, Lo, Hi, QL, QH, {"s", "r"}, ""),
  Given(500, 5, N(1, 2, 0), N(0, 3, 0), N(1, 3, -2), N(0, 7, -2), {"s", "r", "m", "M"}, ""),
  Given(300, 160, N(0, 1, 0), N(0, 10, 0), N(0, 3, 0), N(0, 8, 0), {"s", "r", "m", "M"}, ""),
  Given(400, 1, N(0, 9, -1), Hi, N(0, 1250, 0), N(0, 3750, 0), {"s", "r", "m"}, ""),
  Given(400, 2, Lo, N(0, 3, -2), N(1, 3750, 0), N(1, 1250, 0), {"s", "r", "M"}, ""),
  Given(1000, 150, Lo, Hi, QL, QH, {"s"}, ".*v"),
  Given(50000, 2, Lo, Hi, QL, QH, {"r"}, "[A-E].*"),
  Given(50000, 150, Lo, Hi, QL, QH, {}, ".*Inv.*v"),
  Given(1000, 150, Lo, Hi, QL, QH, {"s", "r"}, ".*v"),
  Given(50000, 150, Lo, Hi, QL, QH, {"s", "r", "m", "M"}, ".*Inv.*v") >>
\* a run with defaults, and the same with the documented values given
Twins == << <<8, 11>>, <<10, 12>> >>
Sizes == <<1, 250, 1000>>
ASSUME JsonSerialize(IOEnv.PLAN, [runs |-> Runs, sizes |-> Sizes, twins |-> Twins])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
