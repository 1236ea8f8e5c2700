------------------------------ MODULE PoolsMC ------------------------------
(* Histories of pool creations over an abstract engine.  "own": each pool    *)
(* seeds its own engine.  "shared": one engine serves all pools.  "reseed":  *)
(* one engine, seeded again for every pool.  "short": the seed is truncated. *)
EXTENDS Integers, Sequences
CONSTANTS Mode, M, MaxSize
VARIABLES eng, seen, n
vars == <<eng, seen, n>>
SeedSet == 0..3
Adv(e) == (5 * e + 3) % M
RECURSIVE Draw(_, _)
Draw(e, k) == IF k = 0 THEN <<>> ELSE <<Adv(e)>> \o Draw(Adv(e), k - 1)
After(e, k) == IF k = 0 THEN e ELSE Draw(e, k)[k]
StartOf(s) == CASE Mode \in {"own", "reseed"} -> s [] Mode = "short" -> s % 2 [] Mode = "shared" -> eng
Init == eng = 0 /\ seen = {} /\ n = 0
Create(s, k) == /\ n < 3 /\ n' = n + 1
                /\ seen' = seen \cup {[seed |-> s, size |-> k, vals |-> Draw(StartOf(s), k)]}
                /\ eng' = After(StartOf(s), k)
Next == \E s \in SeedSet, k \in 0..MaxSize : Create(s, k)
Spec == Init /\ [][Next]_vars
Sized == \A p \in seen : Len(p.vals) = p.size
\* same request, same values; a longer pool starts with the shorter one
Prefix == \A p, q \in seen : p.seed = q.seed /\ p.size <= q.size => p.vals = SubSeq(q.vals, 1, p.size)
Distinct == \A p, q \in seen : p.seed # q.seed /\ p.size = q.size /\ p.size > 0 => p.vals # q.vals
=============================================================================
