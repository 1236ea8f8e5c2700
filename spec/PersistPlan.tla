---------------------------- MODULE PersistPlan ----------------------------
(* Prints the scripts and the bit patterns of the data sets.                 *)
EXTENDS Persist, Patterns, Json, IOUtils, TLC
Depth == IF IOEnv.TIER = "quick" THEN 5 ELSE 6
\* longer random scripts over three files and three objects
RECURSIVE Walk(_, _, _, _)
Walk(s, prefix, n, planted) ==
  IF n = 0 THEN prefix
  ELSE LET x == RandomElement(Succs(s, planted, 3)) IN Walk(x.s, Append(prefix, x.st), n - 1, planted)
Walks(planted) == [k \in 1..(IF IOEnv.TIER = "quick" THEN 60 ELSE 1000) |-> Walk(Start, <<>>, 30, planted)]
\* lists with more than 2^12 and 2^16 rows: written, read, written from the reader to another file and back to the first
LongSizes == <<4097, 70001>>
Long(planted) == [d \in DOMAIN LongSizes |->
  << IF planted THEN Step("plant", 0, 1, d) ELSE Step("make", 1, 0, d) >> \o (IF planted THEN <<>> ELSE << Step("write", 1, 1, 0) >>)
  \o << Step("read", 2, 1, 0), Step("write", 2, 2, 0), Step("read", 3, 2, 0), Step("write", 3, 1, 0), Step("write", 2, 2, 0) >>]
ASSUME JsonSerialize(IOEnv.PLAN, [made |-> SetToSeq(Scripts(Depth, FALSE)) \o Walks(FALSE), long |-> Long(FALSE), longplanted |-> Long(TRUE), sizes |-> LongSizes, planted |-> SetToSeq(Scripts(Depth, TRUE)) \o Walks(TRUE),
                                  d |-> Patterns(F64), f |-> Patterns(F32)])
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
