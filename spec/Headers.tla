------------------------------ MODULE Headers ------------------------------
(* Translation units as sequences of included headers, and programs as sets  *)
(* of objects.  What a header provides has to be usable after any sequence   *)
(* that contains it.                                                         *)
EXTENDS Arrays, Sequences

HeaderNames == <<"asin.h", "atan.h", "atan2.h", "cos.h", "exp.h", "identity.h", "inv.h", "log.h", "sin.h",
                 "sincos.h", "sqrt.h", "stdwrap.h", "tan.h", "tanh.h", "vdtcore_common.h", "vdtMath.h">>
H == 1..Len(HeaderNames)

\* kinds: s1, s2 scalar functions of one and two arguments; j joint sine and
\* cosine; v1, v2 array functions; t1..t3 templates; each in both precisions
\* ("f" before the "v" of arrays, "f" at the end of scalars)
It(n, k) == [n |-> n, k |-> k]
One1(n) == << It("fast_" \o n, "s1"), It(n \o "v", "v1"), It("fast_" \o n \o "v", "v1") >>
Own(h) ==
  CASE h = "asin.h"  -> One1("asin") \o One1("acos")
    [] h = "atan.h"  -> One1("atan")
    [] h = "atan2.h" -> << It("fast_atan2", "s2"), It("atan2v", "v2"), It("fast_atan2v", "v2") >>
    [] h = "cos.h"   -> One1("cos")
    [] h = "exp.h"   -> One1("exp")
    [] h = "log.h"   -> One1("log")
    [] h = "sin.h"   -> One1("sin")
    [] h = "tan.h"   -> One1("tan")
    [] h = "tanh.h"  -> One1("tanh")
    [] h = "sincos.h" -> << It("fast_sincos", "j") >>
    [] h = "identity.h" -> << It("identity", "s1"), It("identity2D", "s2"), It("identityv", "v1"), It("identity2Dv", "v2") >>
    [] h = "inv.h"   -> One1("inv") \o << It("inv", "s1"), It("fast_approx_inv", "s1"), It("fast_approx_invv", "v1") >>
    [] h = "sqrt.h"  -> One1("isqrt") \o << It("isqrt", "s1"), It("fast_approx_isqrt", "s1"), It("fast_approx_isqrtv", "v1") >>
    [] h = "stdwrap.h" -> << It("fast_sqrt", "t1"), It("fast_div", "t2"), It("fast_fma", "t3"), It("fast_fmac", "t3") >>
    [] OTHER -> <<>>
\* the umbrella header provides what its parts provide
Umbrella == {"sin.h", "asin.h", "cos.h", "tan.h", "tanh.h", "atan.h", "atan2.h", "exp.h", "log.h", "sqrt.h", "inv.h", "identity.h"}
Provides(h) == IF h = "vdtMath.h" THEN UNION {{Own(u)[i] : i \in DOMAIN Own(u)} : u \in Umbrella}
               ELSE {Own(h)[i] : i \in DOMAIN Own(h)}
Visible(seq) == UNION {Provides(HeaderNames[seq[i]]) : i \in DOMAIN seq}

\* sequences to compile: every header alone and twice, every ordered pair (the
\* pairs with equal members are the repetitions), every rotation of the whole
\* list forwards and backwards, and longer ones drawn from the seed
Singles == [h \in H |-> <<h>>]
Pairs   == [k \in 1..(Len(HeaderNames) * Len(HeaderNames)) |-> <<((k - 1) \div Len(HeaderNames)) + 1, ((k - 1) % Len(HeaderNames)) + 1>>]
Rot(s, r) == [i \in 1..Len(s) |-> s[((i + r - 2) % Len(s)) + 1]]
Up   == [i \in H |-> i]
Down == [i \in H |-> Len(HeaderNames) + 1 - i]
Rotations == [r \in 1..(2 * Len(HeaderNames)) |-> IF r <= Len(HeaderNames) THEN Rot(Up, r) ELSE Rot(Down, r - Len(HeaderNames))]
Drawn(seed, k) == LET a == (seed * 7919 + k * 104729) % 1000003
                  IN [i \in 1..(3 + (a % 4)) |-> (((a \div i) + 31 * i * k + seed * i) % Len(HeaderNames)) + 1]
Draws(seed, n) == [k \in 1..n |-> Drawn(seed % 1000, k)]
Sequences(tier, seed) == Singles \o Pairs \o Rotations \o Draws(seed, IF tier = "quick" THEN 40 ELSE 600)

\* what is compiled: all sequences as the project compiles, and with the other
\* compiler and the later language standards the headers alone, repeated and
\* all together
Main == [cc |-> "g++", std |-> "c++11"]
OtherWays == << [cc |-> "clang++", std |-> "c++11"], [cc |-> "g++", std |-> "c++14"], [cc |-> "g++", std |-> "c++17"],
             [cc |-> "clang++", std |-> "c++17"], [cc |-> "g++", std |-> "c++20"], [cc |-> "clang++", std |-> "c++20"] >>
Core == Singles \o << Up, Down, Up \o Up >>
Units(tier, seed) ==
  LET main == Sequences(tier, seed)
      other == IF tier = "quick" THEN Core ELSE main
  IN  [k \in 1..(Len(main) + Len(OtherWays) * Len(other)) |->
        IF k <= Len(main) THEN [how |-> Main, seq |-> main[k]]
        ELSE LET j == k - Len(main) - 1
             IN  [how |-> OtherWays[(j \div Len(other)) + 1], seq |-> other[(j % Len(other)) + 1]]]

AllVisible == \A i \in DOMAIN ArrayNames :
   \E h \in H : \E p \in Provides(HeaderNames[h]) :
      p.k \in {"v1", "v2"} /\ p.n = ArrayNames[i].base \o "v" /\ p.k = (IF Arity(ArrayNames[i].base) = 2 THEN "v2" ELSE "v1")
=============================================================================
