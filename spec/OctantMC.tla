------------------------------ MODULE OctantMC ------------------------------
(* The octant walk agrees with the reduction scheme in every octant.         *)
EXTENDS Octant
CONSTANT Variant      \* "right"; "once" (the cosine changes sign at pi/2 only) must disagree
Next == /\ k < LastOctant
        /\ IF Variant = "once" /\ (k + 1) % 8 = 6
           THEN k' = k + 1 /\ edge' = Tail(AddL(edge, PiO4Fix)) /\ UNCHANGED <<ss, sc, big>> ELSE Cross
Spec == OInit /\ [][Next]_ovars
\* 5000 lies in the last octant
Five == k = LastOctant => /\ LtL(edge, <<312, 32768, 0, 0>>)
                          /\ LtL(<<312, 32768, 0, 0>>, Tail(AddL(edge, PiO4Fix)))
=============================================================================
