------------------------------ MODULE Persist ------------------------------
(* Files and the objects written to and read from them (random pools,        *)
(* function responses, comparisons).  A value of a file or an object is a    *)
(* token that stands for the complete list of numbers held, bit for bit and  *)
(* in order; two tokens are equal if and only if the lists are identical.    *)
EXTENDS Integers, Sequences, FiniteSets

None == 0            \* no such file, no such object

\* an object: where it was read from (0: made from numbers) and what it holds
NoObj == [src |-> 0, data |-> None]

\* What a written file may hold.  An object made from numbers writes them.
\* An object read from a file writes what it holds; if somebody has changed
\* its source since, it may as well copy the source's present contents.
WriteResults(files, ob) ==
  IF ob.src = 0 THEN {ob.data}
  ELSE {ob.data} \cup (IF files[ob.src] = None THEN {} ELSE {files[ob.src]})

MadeObj(d) == [src |-> 0, data |-> d]
ReadObj(files, f) == [src |-> f, data |-> files[f]]

(* Scripts: sequences of operations without redundancy from renaming files   *)
(* or objects.  Data sets are numbered in the order of their first use.      *)
NObjs == 3
NFiles == 3
Step(op, o, f, d) == [op |-> op, o |-> o, f |-> f, d |-> d]
\* summary of a prefix: live objects, existing files, data sets used
Start == [no |-> 0, nf |-> 0, nd |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
\* w: how many objects and files a script may use
Succs(s, planted, w) ==
     (IF planted
      THEN {[st |-> Step("plant", 0, f, s.nd + 1), s |-> [s EXCEPT !.nd = @ + 1, !.nf = IF f > @ THEN f ELSE @]]
              : f \in 1..Min2(w, s.nf + 1)}
      ELSE {[st |-> Step("make", o, 0, s.nd + 1), s |-> [s EXCEPT !.nd = @ + 1, !.no = IF o > @ THEN o ELSE @]]
              : o \in 1..Min2(w, s.no + 1)})
  \cup {[st |-> Step("write", o, f, 0), s |-> [s EXCEPT !.nf = IF f > @ THEN f ELSE @]]
          : o \in 1..s.no, f \in 1..Min2(w, s.nf + 1)}
  \cup {[st |-> Step("read", o, f, 0), s |-> [s EXCEPT !.no = IF o > @ THEN o ELSE @]]
          : o \in 1..Min2(w, s.no + 1), f \in 1..s.nf}
RECURSIVE Extend(_, _, _, _)
Extend(s, prefix, n, planted) ==
  IF n = 0 THEN {prefix}
  ELSE UNION {Extend(x.s, Append(prefix, x.st), n - 1, planted) : x \in Succs(s, planted, 2)}
Scripts(n, planted) == Extend(Start, <<>>, n, planted)
=============================================================================
