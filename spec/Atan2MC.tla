------------------------------ MODULE Atan2MC ------------------------------
(* Model of the folding: a point is folded into the first octant, the slope  *)
(* t in [0,1] stands for the angle there (monotone, octant = 1), and the     *)
(* folding is undone.  The resulting angle orders all points of a grid the   *)
(* way rotation does and is odd in y.                                        *)
EXTENDS Integers, Sequences

CONSTANTS R, Variant     \* "right"; "noswap" and "xfirst" must be rejected
VARIABLES x, y, st, num, den, swapped, u, v
vars == <<x, y, st, num, den, swapped, u, v>>
Abs(a) == IF a < 0 THEN -a ELSE a
Init == /\ x \in -R..R /\ y \in -R..R /\ u \in -R..R /\ v \in -R..R
        /\ <<x, y>> # <<0, 0>> /\ <<u, v>> # <<0, 0>>
        /\ st = "fold" /\ num = 0 /\ den = 1 /\ swapped = FALSE
\* angle = num/den in octants
Fold == /\ st = "fold" /\ st' = "swap"
        /\ swapped' = (Abs(y) > Abs(x))
        /\ num' = IF Abs(y) > Abs(x) THEN Abs(x) ELSE Abs(y)
        /\ den' = IF Abs(y) > Abs(x) THEN Abs(y) ELSE Abs(x)
        /\ UNCHANGED <<x, y, u, v>>
Swap == /\ st = "swap" /\ st' = "left"
        /\ num' = IF swapped /\ Variant # "noswap" THEN 2 * den - num ELSE num
        /\ UNCHANGED <<x, y, den, swapped, u, v>>
Left == /\ st = "left" /\ st' = "down"
        /\ num' = IF x < 0 THEN (IF Variant = "xfirst" /\ swapped THEN 2 * den + num ELSE 4 * den - num) ELSE num
        /\ UNCHANGED <<x, y, den, swapped, u, v>>
Down == /\ st = "down" /\ st' = "done"
        /\ num' = IF y < 0 THEN -num ELSE num
        /\ UNCHANGED <<x, y, den, swapped, u, v>>
Next == Fold \/ Swap \/ Left \/ Down
Spec == Init /\ [][Next]_vars

\* the same angle in closed form, for the second point
Ang(a, b) == LET n0 == IF Abs(b) > Abs(a) THEN Abs(a) ELSE Abs(b)
                 d  == IF Abs(b) > Abs(a) THEN Abs(b) ELSE Abs(a)
                 n1 == IF Abs(b) > Abs(a) THEN 2 * d - n0 ELSE n0
                 n2 == IF a < 0 THEN 4 * d - n1 ELSE n1
             IN <<IF b < 0 THEN -n2 ELSE n2, d>>
\* rotational position: half plane (0 lower, 1 upper or negative x axis), then turn direction
Half(a, b) == IF b < 0 THEN 0 ELSE 1
Before(a, b, c, d) ==      \* (a,b) strictly before (c,d) in (-pi, pi]
  \/ Half(a, b) < Half(c, d)
  \/ Half(a, b) = Half(c, d) /\ (a * d - b * c > 0 \/ (a * d = b * c /\ a * c + b * d < 0 /\ a > c))
Ordered == st = "done" =>
  LET w == Ang(u, v) IN
  /\ <<num, den>> = Ang(x, y)
  /\ (num * w[2] < w[1] * den <=> Before(x, y, u, v))
OddInY == (st = "done" /\ y # 0) => Ang(x, -y) = <<-num, den>>
InRange == st = "done" => num <= 4 * den /\ num >= -4 * den
Octants == st = "done" =>
  /\ (y > 0 /\ x > 0 /\ y < x) => num > 0 /\ num < den
  /\ (y > 0 /\ x < 0) => num > 2 * den /\ num < 4 * den
  /\ (y < 0 /\ x < 0) => num < -2 * den
  /\ (y = 0 /\ x < 0) => num = 4 * den
  /\ (x = 0) => Abs(num) = 2 * den
=============================================================================
