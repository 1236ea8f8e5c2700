------------------------------- MODULE Builds -------------------------------
(* The ways the headers can be compiled.  A build is strict if no multiply   *)
(* and add may be fused; strict builds have to agree bit for bit, the others *)
(* are only bound by the error bounds of the contract.                       *)
EXTENDS Integers, Sequences, FiniteSets
Compilers == {"gcc", "clang"}
Opts == {"O0", "O1", "O2", "O3", "Os"}
Isas == {"sse", "avx", "avx2", "fma"}
Builds == [cc : Compilers, opt : Opts, isa : Isas, contract : BOOLEAN]
\* contraction needs the instruction; gcc and clang fuse only when optimising
Meaningful(b) == b.contract => (b.isa = "fma" /\ b.opt # "O0")
Strict(b)  == ~b.contract
Reference  == [cc |-> "gcc", opt |-> "O3", isa |-> "sse", contract |-> FALSE]
\* the quick tier: every value of every option, and the pairs that vectorise
Quick(b) ==
  \/ b = Reference
  \/ Strict(b) /\ b.cc = "gcc" /\ b.isa = "sse" /\ b.opt \in {"O0", "O1", "O2", "Os"}
  \/ Strict(b) /\ b.opt = "O3" /\ b.isa \in {"avx", "avx2", "fma"} /\ b.cc = "gcc"
  \/ Strict(b) /\ b.cc = "clang" /\ <<b.opt, b.isa>> \in {<<"O0", "sse">>, <<"O3", "sse">>, <<"O3", "avx2">>, <<"Os", "avx">>, <<"O2", "fma">>}
  \/ Strict(b) /\ b.cc = "gcc" /\ b.opt = "O0" /\ b.isa = "avx2"
  \/ ~Strict(b) /\ b.cc = "gcc" /\ b.opt = "O3"
Thorough(b) == Strict(b) \/ b.opt \in {"O2", "O3"}
Planned(tier) == {b \in Builds : Meaningful(b) /\ IF tier = "quick" THEN Quick(b) ELSE Thorough(b)}
EveryValueUsed(tier) ==
  LET p == {b \in Planned(tier) : Strict(b)} IN
  /\ {b.cc : b \in p} = Compilers /\ {b.opt : b \in p} = Opts /\ {b.isa : b \in p} = Isas
  /\ Reference \in p
  /\ \E b \in Planned(tier) : ~Strict(b)
\* how the element functions are reached: one by one, inlined into a caller's
\* loop, through the array functions of the library
Ways == {"isolated", "loop", "library"}
=============================================================================
