------------------------------ MODULE Special ------------------------------
(* Behaviour at and beyond the edges of the operating intervals: the set of  *)
(* admissible results for every class of argument.                           *)
EXTENDS Contract

\* the patterns beyond the infinities are the NaNs
NaNPos(F) == <<Succ(F, InfBits(F, 0)), [i \in 1..F.n |-> IF i = 1 THEN 32767 ELSE 65535]>>
NaNNeg(F) == <<[i \in 1..F.n |-> 65535], Pred(F, InfBits(F, 1))>>

\* expectation e: "nan", "pinf", "zero", "one", "mone", "pio2", "mpio2",
\* or a limit that may be replaced by a correct value: "pinfacc", "zeroacc"
Sp(lo, hi, e, nq, nt) == [lo |-> lo, hi |-> hi, want |-> e, floor |-> NoFloor, ceil |-> NoCeil,
                          bpc |-> 64, cpb |-> 1, nq |-> nq, nt |-> nt]
At(b, e) == Sp(b, b, e, 4, 4)
Wide(lo, hi, e)   == Sp(lo, hi, e, 100000, 4000000)
Band(F, lo, hi, e) == [Sp(lo, hi, e, 400000, 4000000) EXCEPT !.cpb = IF IsD(F) THEN 4 ELSE 1, !.bpc = 1]

N(F, b) == NegBits(F, b)
Edge(F, d, f) == IF IsD(F) THEN X(F, d[1], d[2]) ELSE X(F, f[1], f[2])

NaNs(F) == << Wide(NaNNeg(F)[1], NaNNeg(F)[2], "nan"), Wide(NaNPos(F)[1], NaNPos(F)[2], "nan") >>

OddZero(F) == << At(ZeroBits(F, 1), "zero"), At(ZeroBits(F, 0), "zero") >>

SpecialOf(fn) ==
  LET F   == FmtOf(fn)
      inf == InfBits(F, 0)
      nin == InfBits(F, 1)
      top == Edge(F, <<708, 0>>, <<5651, -6>>)         \* end of the operating interval
      ovf == Edge(F, <<90855, -7>>, <<1421, -4>>)      \* 709.8046875, 88.8125
      bot == N(F, Edge(F, <<708, 0>>, <<5587, -6>>))
      unf == N(F, Edge(F, <<2981, -2>>, <<104, 0>>))   \* -745.25, -104
      lgt == LogTop(F)
      sat == Edge(F, <<20, 0>>, <<589, -6>>)           \* 20, 9.203125
  IN NaNs(F) \o
  CASE fn \in {"exp_d", "exp_f"} ->
         << Band(F, Succ(F, top), Pred(F, ovf), "pinfacc"), Wide(ovf, inf, "pinf"),
            Band(F, Succ(F, unf), Pred(F, bot), "zeroacc"), Wide(nin, unf, "zero"),
            At(ZeroBits(F, 0), "one"), At(ZeroBits(F, 1), "one") >>
    [] fn \in {"log_d", "log_f"} ->
         << Wide(nin, MinSub(F, 1), "nan"), At(inf, "pinf"), At(One(F), "zero") >>
         \o (IF IsD(F) THEN << Band(F, Succ(F, lgt), MaxFinite(F, 0), "pinfacc") >> ELSE <<>>)
    [] fn \in {"asin_d", "asin_f"} ->
         << Wide(Succ(F, One(F)), inf, "nan"), Wide(nin, Pred(F, N(F, One(F))), "nan") >> \o OddZero(F)
    [] fn \in {"acos_d", "acos_f"} ->
         << Wide(Succ(F, One(F)), inf, "nan"), Wide(nin, Pred(F, N(F, One(F))), "nan"),
            At(One(F), "zero") >>
    [] fn \in {"tanh_d", "tanh_f"} ->
         << Wide(Succ(F, sat), inf, "one"), Wide(nin, Pred(F, N(F, sat)), "mone") >> \o OddZero(F)
    [] fn \in {"atan_d", "atan_f"} -> << At(inf, "pio2"), At(nin, "mpio2") >> \o OddZero(F)
    [] fn \in {"sin_d", "sin_f", "tan_d", "tan_f"} -> OddZero(F)
    [] fn \in {"cos_d", "cos_f"} -> << At(ZeroBits(F, 0), "one"), At(ZeroBits(F, 1), "one") >>
    [] OTHER -> <<>>

Admissible(fn, want, y, r) ==
  LET F == FmtOf(fn)
      accurate == Deviation(F, y, r, NoFloor, NoCeil) <= Ulps(3) + 2
  IN CASE want = "nan"     -> IsNaN(F, y)
       [] want = "pinf"    -> y = InfBits(F, 0)
       [] want = "zero"    -> KindOf(F, y) = "zero"
       [] want = "one"     -> y = One(F)
       [] want = "mone"    -> y = NegBits(F, One(F))
       [] want = "pio2"    -> IsFinite(F, y) /\ SignOf(F, y) = 0 /\ ToIntL(DistL(y, PiO2(F))) <= 3
       [] want = "mpio2"   -> IsFinite(F, y) /\ SignOf(F, y) = 1
                              /\ ToIntL(DistL(NegBits(F, y), PiO2(F))) <= 3
       [] want = "pinfacc" -> y = InfBits(F, 0) \/ accurate
       [] want = "zeroacc" -> KindOf(F, y) = "zero" \/ accurate

RegionsFor(mode, fn) ==
  CASE mode = "special" -> SpecialOf(fn)
    [] mode = "acc"     -> AccRegions(fn)
    [] OTHER            -> Regions(fn)

SpecialFns == {"exp_d", "log_d", "sin_d", "cos_d", "tan_d", "tanh_d", "asin_d", "acos_d", "atan_d",
               "exp_f", "log_f", "sin_f", "cos_f", "tan_f", "tanh_f", "asin_f", "acos_f", "atan_f",
               "isqrt_d", "isqrt_f", "inv_d", "inv_f", "aisqrt_d", "aisqrt_f", "ainv_d", "ainv_f"}
=============================================================================
