------------------------------ MODULE Contract ------------------------------
(* What users may rely on, function by function: the operating interval cut  *)
(* into regions, each with the unit errors are measured in and the bound in  *)
(* that unit; parity; range; behaviour outside the operating interval.       *)
(* Names: <function>_d for double, <function>_f for float.                   *)
EXTENDS IEEE, FiniteSets

NoFloor == -5000
NoCeil  == 5000

AccD == {"exp_d", "log_d", "sin_d", "cos_d", "tan_d", "tanh_d", "asin_d", "acos_d", "atan_d"}
AccF == {"exp_f", "log_f", "sin_f", "cos_f", "tan_f", "tanh_f", "asin_f", "acos_f", "atan_f"}
RecD == {"isqrt_d", "aisqrt_d", "inv_d", "ainv_d", "pisqrt_d", "pinv_d"}
RecF == {"isqrt_f", "aisqrt_f", "inv_f", "ainv_f", "pisqrt_f", "pinv_f"}
AllFns == AccD \cup AccF \cup RecD \cup RecF

FmtOf(fn) == IF fn \in AccD \cup RecD THEN F64 ELSE F32

-----------------------------------------------------------------------------
(* Regions.  lo, hi: inclusive bit patterns.  max: bound in 1/256 quantum.   *)
(* The sweep density is part of the plan: cells of bpc binades (or cpb cells *)
(* per binade) with nq / nt points in the quick / thorough tier.             *)
Reg(lo, hi, floor, ceil, max256, bpc, cpb, nq, nt) ==
  [lo |-> lo, hi |-> hi, floor |-> floor, ceil |-> ceil, max |-> max256,
   bpc |-> bpc, cpb |-> cpb, nq |-> nq, nt |-> nt]

Ulps(n) == 256 * n

Mirror(F, r) == [r EXCEPT !.lo = NegBits(F, r.hi), !.hi = NegBits(F, r.lo)]
RECURSIVE MirrorAll(_, _)
MirrorAll(F, rs) == IF rs = <<>> THEN <<>> ELSE Append(MirrorAll(F, Tail(rs)), Mirror(F, Head(rs)))
BothSigns(F, rs) == MirrorAll(F, rs) \o rs

\* from here up to (not including) the next start
Before(F, b) == Pred(F, b)

X(F, m, e) == Enc(F, 0, m, e)            \* m * 2^e

\* density presets; quick/thorough points per cell
IsD(F) == F.n = 4
\* core binades: double 4 cells per binade; float one cell per binade, exhaustive
Core(F, lo, hi, fl, ce, u) ==
  IF IsD(F) THEN Reg(lo, hi, fl, ce, Ulps(u), 1, 4, 400000, 4000000)
            ELSE Reg(lo, hi, fl, ce, Ulps(u), 1, 1, 8388608, 8388608)
\* near binades: one cell per binade
Near(F, lo, hi, fl, ce, u) ==
  IF IsD(F) THEN Reg(lo, hi, fl, ce, Ulps(u), 1, 1, 150000, 2000000)
            ELSE Reg(lo, hi, fl, ce, Ulps(u), 1, 1, 2000000, 8388608)
\* far binades: sixteen binades per cell
Far(F, lo, hi, fl, ce, u) ==
  IF IsD(F) THEN Reg(lo, hi, fl, ce, Ulps(u), 16, 1, 200000, 2000000)
            ELSE Reg(lo, hi, fl, ce, Ulps(u), 16, 1, 6000000, 134217728)

Zero0(F) == ZeroBits(F, 0)

\* positive halves -----------------------------------------------------------
TinyTo(F, e, u) == Far(F, Zero0(F), Before(F, X(F, 1, e)), NoFloor, NoCeil, u)

ExpPos(F) == << TinyTo(F, -40, 3),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -8)), NoFloor, NoCeil, 3),
               Core(F, X(F, 1, -8), IF IsD(F) THEN X(F, 708, 0) ELSE X(F, 5651, -6), NoFloor, NoCeil, 3) >>
ExpNeg(F) == MirrorAll(F,
            << TinyTo(F, -40, 3),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -8)), NoFloor, NoCeil, 3),
               Core(F, X(F, 1, -8), IF IsD(F) THEN X(F, 708, 0) ELSE X(F, 5587, -6), NoFloor, NoCeil, 3) >>)

\* 1e307 lies in the binade 2^1019; the last region stops just below it
LogTop(F) == IF IsD(F) THEN X(F, 14932217, 996) ELSE MaxFinite(F, 0)
LogRs(F) == << Far(F, MinNormal(F, 0), Before(F, X(F, 1, -30)), NoFloor, NoCeil, 3),
               Core(F, X(F, 1, -30), Before(F, X(F, 1, 30)), NoFloor, NoCeil, 3),
               Far(F, X(F, 1, 30), LogTop(F), NoFloor, NoCeil, 3) >>

TrigRs(F, u, uTiny, ceil) ==
            << TinyTo(F, -40, uTiny),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -22)), NoFloor, NoCeil, uTiny),
               Near(F, X(F, 1, -22), Before(F, X(F, 1, -8)), NoFloor, NoCeil, u),
               Core(F, X(F, 1, -8), Before(F, X(F, 25, -5)), NoFloor, NoCeil, u),
               Core(F, X(F, 25, -5), X(F, 5000, 0), -5, ceil, u) >>

ArcRs(F, u, floor) ==
            << TinyTo(F, -40, u),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -12)), floor, NoCeil, u),
               Core(F, X(F, 1, -12), X(F, 1, 0), floor, NoCeil, u) >>

AtanRs(F, u) ==
            << TinyTo(F, -40, u),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -12)), NoFloor, NoCeil, u),
               Core(F, X(F, 1, -12), Before(F, X(F, 1, 13)), NoFloor, NoCeil, u),
               Near(F, X(F, 1, 13), Before(F, X(F, 1, 60)), NoFloor, NoCeil, u),
               Far(F, X(F, 1, 60), MaxFinite(F, 0), NoFloor, NoCeil, u) >>

TanhRs(F) ==
            << TinyTo(F, -40, 10),
               Near(F, X(F, 1, -40), Before(F, X(F, 1, -12)), NoFloor, NoCeil, 10),
               Core(F, X(F, 1, -12), Before(F, X(F, 1, 6)), NoFloor, NoCeil, 10),
               Far(F, X(F, 1, 6), MaxFinite(F, 0), NoFloor, NoCeil, 10) >>

\* inverse square root: all positive normals; reciprocal: normal result
IsqrtRs(F, u) ==
            << Far(F, MinNormal(F, 0), Before(F, X(F, 1, -24)), NoFloor, NoCeil, u),
               Core(F, X(F, 1, -24), Before(F, X(F, 1, 24)), NoFloor, NoCeil, u),
               Far(F, X(F, 1, 24), MaxFinite(F, 0), NoFloor, NoCeil, u) >>
InvPos(F, u) ==
            << Far(F, MinNormal(F, 0), Before(F, X(F, 1, -24)), NoFloor, NoCeil, u),
               Core(F, X(F, 1, -24), Before(F, X(F, 1, 24)), NoFloor, NoCeil, u),
               Far(F, X(F, 1, 24), X(F, 1, F.bias - 1), NoFloor, NoCeil, u) >>

HalfUlpMore == 384                                            \* 1.5 ulp

Scale(rs, max256) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.max = max256]]

Regions(fn) ==
  LET F == FmtOf(fn) IN
  CASE fn \in {"exp_d", "exp_f"}     -> ExpNeg(F) \o ExpPos(F)
    [] fn \in {"log_d", "log_f"}     -> LogRs(F)
    [] fn \in {"sin_d", "sin_f", "cos_d", "cos_f"} -> BothSigns(F, TrigRs(F, 3, 3, NoCeil))
    [] fn = "tan_d"                  -> BothSigns(F, TrigRs(F, 5, 40, 5))
    [] fn = "tan_f"                  -> BothSigns(F, TrigRs(F, 5, 5, 5))
    [] fn \in {"tanh_d", "tanh_f"}   -> BothSigns(F, TanhRs(F))
    [] fn = "asin_d"                 -> BothSigns(F, ArcRs(F, 3, NoFloor))
    [] fn = "asin_f"                 -> BothSigns(F, ArcRs(F, 5, NoFloor))
    [] fn \in {"acos_d", "acos_f"}   -> BothSigns(F, ArcRs(F, 3, 0))
    [] fn = "atan_d"                 -> BothSigns(F, AtanRs(F, 3))
    [] fn = "atan_f"                 -> BothSigns(F, AtanRs(F, 5))
    [] fn = "isqrt_d"                -> IsqrtRs(F, 4)
    [] fn = "isqrt_f"                -> IsqrtRs(F, 100)
    [] fn = "aisqrt_d"               -> IsqrtRs(F, 300000)
    [] fn = "aisqrt_f"               -> IsqrtRs(F, 32000)
    [] fn = "inv_d"                  -> BothSigns(F, InvPos(F, 8))
    [] fn = "inv_f"                  -> BothSigns(F, InvPos(F, 200))
    [] fn = "ainv_d"                 -> BothSigns(F, InvPos(F, 600000))
    [] fn = "ainv_f"                 -> BothSigns(F, InvPos(F, 64000))
    [] fn \in {"pisqrt_d", "pisqrt_f"} -> Scale(IsqrtRs(F, 1), HalfUlpMore)
    [] fn \in {"pinv_d", "pinv_f"}   -> Scale(BothSigns(F, InvPos(F, 1)), HalfUlpMore)

\* error bounds are promised for normal numbers and zeros only: the regions
\* that reach a zero lose their subnormals and keep the zero as a point
RECURSIVE WithoutSub(_, _)
WithoutSub(F, rs) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) rest == WithoutSub(F, Tail(rs)) IN
       IF r.lo = ZeroBits(F, 0)
       THEN << [r EXCEPT !.hi = r.lo], [r EXCEPT !.lo = MinNormal(F, 0)] >> \o rest
       ELSE IF r.hi = ZeroBits(F, 1)
       THEN << [r EXCEPT !.hi = MinNormal(F, 1)], [r EXCEPT !.lo = r.hi] >> \o rest
       ELSE <<r>> \o rest
AccRegions(fn) == WithoutSub(FmtOf(fn), Regions(fn))

\* consecutive regions touch, except around zero, where the subnormals (and
\* for the reciprocals the zeros) may be left out
WellFormed(F, rs) ==
  /\ \A i \in DOMAIN rs : LeqL(KeyOf(F, rs[i].lo), KeyOf(F, rs[i].hi))
  /\ \A i \in DOMAIN rs : i > 1 =>
       \/ KeyOf(F, rs[i].lo) = IncL(KeyOf(F, rs[i - 1].hi))
       \/ /\ rs[i - 1].hi \in {MinNormal(F, 1), ZeroBits(F, 0)}
          /\ rs[i].lo \in {ZeroBits(F, 1), MinNormal(F, 0)}
          /\ LtL(KeyOf(F, rs[i - 1].hi), KeyOf(F, rs[i].lo))
RegionsWellFormed(fn) == WellFormed(FmtOf(fn), Regions(fn)) /\ WellFormed(FmtOf(fn), AccRegions(fn))

-----------------------------------------------------------------------------
Parity(fn) ==
  CASE fn \in {"sin_d", "sin_f", "tan_d", "tan_f", "asin_d", "asin_f", "atan_d", "atan_f",
               "tanh_d", "tanh_f", "inv_d", "inv_f", "ainv_d", "ainv_f", "pinv_d", "pinv_f"} -> "odd"
    [] fn \in {"cos_d", "cos_f"} -> "even"
    [] OTHER -> "none"

\* pi and pi/2 rounded to the format
Pi(F)   == IF IsD(F) THEN <<16393, 8699, 21572, 11544>> ELSE <<16457, 4059>>
PiO2(F) == IF IsD(F) THEN <<16377, 8699, 21572, 11544>> ELSE <<16329, 4059>>
One(F)  == X(F, 1, 0)

\* closed interval of results over the operating interval
RangeOf(fn) ==
  LET F == FmtOf(fn) IN
  CASE fn \in {"sin_d", "sin_f", "cos_d", "cos_f", "tanh_d", "tanh_f"} -> <<NegBits(F, One(F)), One(F)>>
    [] fn \in {"asin_d", "asin_f", "atan_d", "atan_f"} -> <<NegBits(F, PiO2(F)), PiO2(F)>>
    [] fn \in {"acos_d", "acos_f"} -> <<Zero0(F), Pi(F)>>
    [] fn \in {"exp_d", "exp_f"} -> <<Zero0(F), MaxFinite(F, 0)>>
    [] fn \in {"isqrt_d", "isqrt_f", "aisqrt_d", "aisqrt_f", "pisqrt_d", "pisqrt_f"} -> <<MinSub(F, 0), MaxFinite(F, 0)>>
    [] OTHER -> <<MaxFinite(F, 1), MaxFinite(F, 0)>>
=============================================================================
