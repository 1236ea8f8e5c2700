------------------------------- MODULE Octant -------------------------------
(* Walk of an angle through the octants.  State: which octant, the signs of  *)
(* sine and cosine in it and which of the two is larger in magnitude.  The   *)
(* walk only knows what happens when a multiple of pi/4 is crossed.          *)
EXTENDS IEEE

VARIABLES k,      \* octant number: the angle lies between k and k+1 times pi/4
          ss, sc, \* sign of sine and cosine: 0 positive, 1 negative
          big,    \* "s" or "c"
          edge    \* k * pi/4 in units of 2^-44, as limbs
ovars == <<k, ss, sc, big, edge>>

LastOctant == 6366                       \* 5000 lies inside this octant
PiO4Fix == <<0, 3216, 64938, 8726>>     \* floor(pi/4 * 2^44)

OInit == k = 0 /\ ss = 0 /\ sc = 0 /\ big = "c" /\ edge = ZeroL(4)

Cross ==
  LET b == (k + 1) % 8 IN
  /\ k' = k + 1
  /\ edge' = Tail(AddL(edge, PiO4Fix))
  /\ big' = IF b % 2 = 1 THEN (IF big = "s" THEN "c" ELSE "s") ELSE big
  /\ sc'  = IF b \in {2, 6} THEN 1 - sc ELSE sc
  /\ ss'  = IF b \in {0, 4} THEN 1 - ss ELSE ss

\* The reduction the library is designed around: nearest even multiple of pi/4,
\* a residue in (-pi/4, pi/4), bits 1 and 2 of the multiple select swap and signs.
Bit2(j) == (j \div 4) % 2
Scheme ==
  LET j    == 2 * ((k + 1) \div 2)
      zneg == IF k % 2 = 1 THEN 1 ELSE 0           \* residue negative in odd octants
      swap == ((j - 2) \div 2) % 2 = 0
      fs   == IF Bit2(j) = 1 THEN 1 ELSE 0         \* flip sine
      fc   == IF Bit2(j - 2) = 0 THEN 1 ELSE 0     \* flip cosine
      s0   == IF swap THEN 0 ELSE zneg             \* before flipping: small part has the residue's sign
      c0   == IF swap THEN zneg ELSE 0
  IN /\ ss = (s0 + fs) % 2
     /\ sc = (c0 + fc) % 2
     /\ big = IF swap THEN "s" ELSE "c"

TypeOK == k \in 0..LastOctant /\ ss \in 0..1 /\ sc \in 0..1 /\ big \in {"s", "c"} /\ IsLimbs(edge)
=============================================================================
