------------------------------- MODULE Inputs -------------------------------
(* The inputs on which the programs evaluate the functions, and the times    *)
(* that the timing program reports for them.                                 *)
EXTENDS IEEE, Tools
(* ----------------------------------------------------------------- pools *)
\* the pool that a function of this base name takes its inputs from
PoolOf(base) ==
  CASE base \in {"Exp", "Fast_Exp"} -> "exp"
    [] base \in {"Log", "Fast_Log", "Isqrt", "Fast_Isqrt", "Fast_Apr_Isqrt"} -> "positive"
    [] base \in {"Asin", "Acos", "Fast_Asin", "Fast_Acos"} -> "unit"
    [] OTHER -> "symmetric"
Pools(f) == IF f.dim = 2 THEN <<"first", "second">> ELSE <<PoolOf(f.base)>>
Fm(f) == IF f.prec = "d" THEN F64 ELSE F32
\* numbers [s, m, e]: m * 2^e with the sign s
Num(F, v) == Enc(F, v.s, v.m, v.e)
LeB(F, a, b) == ~IsNaN(F, a) /\ ~IsNaN(F, b) /\ (NumEq(F, a, b) \/ LtL(KeyOf(F, a), KeyOf(F, b)))
N(s, m, e) == [s |-> s, m |-> m, e |-> e]
One == N(0, 1, 0)   MOne == N(1, 1, 0)   Half == N(0, 1, -1)   MHalf == N(1, 1, -1)
Zero == N(0, 0, 0)
Scaled(v) == [v EXCEPT !.e = @ - 1]
ExpLo(F) == IF F.n = 4 THEN N(1, 708, 0) ELSE N(1, 5587, -6)
ExpHi(F) == IF F.n = 4 THEN N(0, 708, 0) ELSE N(0, 5651, -6)
(* lo, hi: the smallest and largest input of a function with pool p, among   *)
(* many values if many; run: [min, max] of the symmetric pool and the points *)
(* low, high between them that are reached from outside by many values       *)
Inside(F, p, lo, hi, run, many) ==
  LET In(a, b) == LeB(F, Num(F, a), lo) /\ LeB(F, hi, Num(F, b))
      Reaches(a, b) == many => LeB(F, lo, Num(F, a)) /\ LeB(F, Num(F, b), hi)
  IN CASE p = "exp"       -> In(ExpLo(F), ExpHi(F)) /\ Reaches(Scaled(ExpLo(F)), Scaled(ExpHi(F)))
       [] p = "positive"  -> In(Zero, run.max) /\ KindOf(F, lo) = "norm" /\ SignOf(F, lo) = 0 /\ Reaches(Scaled(run.max), Scaled(run.max))
       [] p = "unit"      -> In(MOne, One) /\ Reaches(MHalf, Half)
       [] p \in {"first", "second"} -> In(MOne, One) /\ Reaches(MHalf, Half)
       [] p = "symmetric" -> In(run.min, run.max) /\ Reaches(run.low, run.high)
(* ----------------------------------------------------------------- times *)
\* the functions that can be observed from outside: array functions, and the
\* scalar ones of the C library
Seen(f) == f.suffix \in {"v", "fv"} \/ f.base \in (Standard \ {"Identity", "Isqrt", "Inverse"}) \cup {"Atan2"}
\* o: [evals, calls, nmin, nmax, lo, hi, cost] as recorded, mean: reported, in 1/100 ns
Measured(f, run, o, mean) ==
  IF ~Seen(f) THEN (IF mean = 0 THEN "ok" ELSE "reports time although none passed in it")
  ELSE IF o.evals = 0 THEN "was never evaluated"
  ELSE IF o.nmin # o.nmax \/ (f.suffix \in {"v", "fv"} /\ o.nmin # run.size) THEN "was not called with the requested number of inputs"
  ELSE IF o.evals % run.size # 0 \/ o.evals \div run.size < run.reps THEN "was not evaluated the requested number of times"
  ELSE IF mean # 100 * o.cost THEN "reports a time that is not the time per evaluation"
  ELSE IF \E k \in 1..f.dim : ~Inside(Fm(f), Pools(f)[k], o.lo[k], o.hi[k], run, run.size >= 200) THEN "got inputs outside its interval or only a part of it"
  ELSE "ok"
Interval == [min |-> N(1, 5000, 0), max |-> N(0, 5000, 0), low |-> N(1, 2500, 0), high |-> N(0, 2500, 0)]
\* inputs o of a response written by the arithmetic benchmark
Benchmarked(f, size, o) ==
  IF o.n # size THEN "does not have the requested number of inputs"
  ELSE IF \E k \in 1..f.dim : ~Inside(Fm(f), Pools(f)[k], o.lo[k], o.hi[k], Interval, size >= 200) THEN "got inputs outside its interval or only a part of it"
  ELSE "ok"
=============================================================================
