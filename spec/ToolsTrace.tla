----------------------------- MODULE ToolsTrace -----------------------------
(* Validates recorded tool invocations.                                      *)
(* kind "scenario": steps, each with the invocation and the directory after  *)
(* it (name -> token); contents: token -> what the file holds.               *)
(* kind "patterns": timed function names per pattern.  kind "table": entries *)
(* of the function tables, evaluated.                                        *)
EXTENDS Tools, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
Contents == ndJsonDeserialize(IOEnv.CONTENTS)
VARIABLES t, i, dir, verdict
vars == <<t, i, dir, verdict>>
T == Traces[t]
S == T.steps[i]
Init == t \in DOMAIN Traces /\ i = 1 /\ dir = <<>> /\ verdict = "ok"
Obs == S.dir
At(d, f) == Contents[d[f]]
\* files present before and not to be written by this step are as before
Kept(written) == \A f \in DOMAIN dir \ written : f \in DOMAIN Obs /\ Obs[f] = dir[f]
First(xs, bad(_)) == IF \E k \in DOMAIN xs : bad(xs[k]) # "ok" THEN bad(xs[CHOOSE k \in DOMAIN xs : bad(xs[k]) # "ok"]) ELSE "ok"
BenchFile(f) == LET n == ResponseFile(S.nick, f.name) IN
  IF n \notin DOMAIN Obs THEN f.name \o ": no response file"
  ELSE LET v == ResponseOK(At(Obs, n), f, IF S.size < 0 THEN 50000 ELSE S.size) IN IF v = "ok" THEN v ELSE f.name \o ": " \o v
Bench == LET bad == {f \in Benched : BenchFile(f) # "ok"} IN
  IF bad # {} THEN BenchFile(CHOOSE f \in bad : TRUE)
  ELSE IF ~Kept({ResponseFile(S.nick, f.name) : f \in Benched}) THEN "a file of another run changed"
  ELSE "ok"
There(k) == S.refs[k] \in DOMAIN dir /\ S.tests[k] \in DOMAIN dir
FnOf(k) == Named(At(dir, S.refs[k]).label)
Target(k) == ComparisonFile(S.nick, FnOf(k).name)
PairVerdict(k) ==
  IF ~There(k) \/ \E j \in (k + 1)..Len(S.refs) : There(j) /\ Target(j) = Target(k) THEN "ok"
  ELSE IF Target(k) \notin DOMAIN Obs THEN "pair " \o ToString(k) \o " was not compared"
  ELSE LET v == ComparisonOK(At(Obs, Target(k)), At(dir, S.refs[k]), At(dir, S.tests[k]), FnOf(k).dim) IN IF v = "ok" THEN v ELSE "pair " \o ToString(k) \o ": " \o v
Pairwise ==
  LET made == {Target(k) : k \in {j \in DOMAIN S.refs : There(j)}} IN
  IF \E k \in DOMAIN S.refs : PairVerdict(k) # "ok"
  THEN PairVerdict(CHOOSE k \in DOMAIN S.refs : PairVerdict(k) # "ok")
  ELSE IF ~Kept(made) THEN "a file of no compared pair changed"
  ELSE LET ks == SelectSeq([j \in DOMAIN S.refs |-> j], There) IN
    IF Len(S.printed) # Len(ks) THEN "not one line of statistics was printed per compared pair"
    ELSE IF \E j \in DOMAIN ks : ~PrintedOK(S.printed[j], At(dir, S.refs[ks[j]]), At(dir, S.tests[ks[j]]), FnOf(ks[j]).dim) THEN "the printed statistics are not those of the pair"
    ELSE "ok"
Invoke == /\ T.kind = "scenario" /\ verdict = "ok" /\ i <= Len(T.steps) /\ i' = i + 1 /\ dir' = Obs /\ UNCHANGED t
          /\ verdict' = CASE S.op = "bench" -> Bench [] S.op = "compare" -> Pairwise
                          [] S.op = "remove" -> IF Assert(Kept({S.file}) /\ S.file \notin DOMAIN Obs, <<"driver", t, i>>) THEN "ok" ELSE "ok"
P == T.obs[i]
Count(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
Pattern == /\ T.kind = "patterns" /\ verdict = "ok" /\ i <= Len(T.obs) /\ i' = i + 1 /\ UNCHANGED <<t, dir>>
           /\ LET p == CHOOSE q \in PatternSet : Text(q) = P.text want == {f.name : f \in {g \in Timed : Match(p, g.name)}} got == {P.names[k] : k \in DOMAIN P.names}
               IN
              verdict' = IF want \ got # {} THEN "not measured although the name matches: " \o (CHOOSE n \in want \ got : TRUE)
                         ELSE IF got \ want # {} THEN "measured although the name does not match: " \o (CHOOSE n \in got \ want : TRUE)
                         ELSE IF \E n \in got : Count(P.names, n) # 1 THEN "measured more than once: " \o (CHOOSE n \in got : Count(P.names, n) # 1)
                         ELSE "ok"
Entry == /\ T.kind = "table" /\ verdict = "ok" /\ i <= Len(T.obs) + 1 /\ i' = i + 1 /\ UNCHANGED <<t, dir>>
         /\ verdict' = IF i = Len(T.obs) + 1
                       THEN (IF \E f \in Timed : ~(f.suffix = T.suffix => \E k \in DOMAIN T.obs : T.obs[k].label = f.name) THEN "a function is not listed" ELSE "ok")
                       ELSE IF T.obs[i].label \notin {f.name : f \in Timed} THEN "ok"
                       ELSE LET v == ResponseOK(T.obs[i], Named(T.obs[i].label), T.obs[i].n) IN IF v = "ok" THEN v ELSE T.obs[i].label \o ": " \o v
Spec == Init /\ [][Invoke \/ Pattern \/ Entry]_vars
NoViolation == verdict = "ok"
=============================================================================
