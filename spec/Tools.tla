------------------------------- MODULE Tools -------------------------------
(* The three programs: which functions they list, which files they write,    *)
(* what a written file must hold, and which names a pattern selects.         *)
EXTENDS Diffs, FiniteSets
(* ------------------------------------------------------------- functions *)
Suffixes == {"", "f", "v", "fv"}
PrecOf(s) == IF s \in {"f", "fv"} THEN "f" ELSE "d"
Standard == {"Identity", "Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse"}
Fast == {"Fast_Exp", "Fast_Log", "Fast_Sin", "Fast_Cos", "Fast_Tan", "Fast_Tanh", "Fast_Asin", "Fast_Acos", "Fast_Atan",
         "Fast_Isqrt", "Fast_Inv", "Fast_Apr_Isqrt", "Fast_Apr_Inv"}
Two == {"Atan2", "Fast_Atan2"}
Fns(bs, dim) == {[name |-> b \o s, base |-> b, suffix |-> s, prec |-> PrecOf(s), dim |-> dim] : b \in bs, s \in Suffixes}
Benched == Fns(Standard \cup Fast, 1) \cup Fns(Two, 2)
Timed == Benched \cup Fns({"Identity2D"}, 2)
Named(n) == CHOOSE f \in Timed : f.name = n
(* ----------------------------------------------------------------- files *)
Char(s, k) == SubSeq(s, k, k)
RECURSIVE FirstAt(_, _, _)
FirstAt(s, c, k) == IF k > Len(s) THEN 0 ELSE IF Char(s, k) = c THEN k ELSE FirstAt(s, c, k + 1)
\* a function without the prefix that tells the implementation
Short(n) == SubSeq(n, FirstAt(n, "_", 1) + 1, Len(n))
ResponseFile(nick, n) == nick \o "__" \o n \o "__response.txt"
ComparisonFile(nick, n) == "comparison__" \o nick \o "__" \o Short(n) \o ".txt"
(* A response file c of function f with n inputs: rows of inputs, output and *)
(* the value the function of that name and precision takes there.            *)
ResponseOK(c, f, n) ==
  IF c.kind # "response" THEN "no response file"
  ELSE IF c.label # f.name THEN "the label in the file names another function"
  ELSE IF c.prec # f.prec THEN "the file states another precision"
  ELSE IF c.n # n THEN "the file does not hold the requested number of inputs"
  ELSE IF \E k \in DOMAIN c.rows : Len(c.rows[k]) # f.dim + 2 THEN "a row does not hold the inputs and one output"
  ELSE IF c.wrong # 0 \/ \E k \in DOMAIN c.rows : c.rows[k][f.dim + 1] # c.rows[k][f.dim + 2] THEN "an output is not what the function of that name and precision returns"
  ELSE "ok"
\* A comparison c of two responses; dim inputs per row
ComparisonOK(c, r, s, dim) ==
  IF c.kind # "comparison" THEN "no comparison file"
  ELSE IF Len(c.rows) # Len(r.rows) THEN "the comparison does not have one row per input of the reference"
  ELSE IF \E k \in DOMAIN c.rows : Len(c.rows[k]) # dim + 2 THEN "a row of the comparison does not hold the inputs and two outputs"
  ELSE IF \E k \in DOMAIN c.rows : SubSeq(c.rows[k], 1, dim) # SubSeq(r.rows[k], 1, dim) THEN "the inputs are not those of the reference"
  ELSE IF \E k \in DOMAIN c.rows : c.rows[k][dim + 1] # r.rows[k][dim + 1] THEN "the first output is not that of the reference"
  ELSE IF \E k \in DOMAIN c.rows : c.rows[k][dim + 2] # s.rows[k][dim + 1] THEN "the second output is not that of the tested file"
  ELSE IF \E k \in DOMAIN c.rows : c.d[k] # Diff(r.rows[k][dim + 1], s.rows[k][dim + 1]) THEN "a bit difference is wrong"
  ELSE "ok"
\* One printed line p of statistics (mean in hundredths) of two responses
Diffs2(r, s, dim) == [k \in DOMAIN r.rows |-> Diff(r.rows[k][dim + 1], s.rows[k][dim + 1])]
RECURSIVE SumTo(_, _)
SumTo(d, k) == IF k = 0 THEN 0 ELSE d[k] + SumTo(d, k - 1)
PrintedOK(p, r, s, dim) ==
  LET d == Diffs2(r, s, dim) n == Len(d) off == 100 * SumTo(d, n) - p.mean * n IN
  IF n = 0 THEN TRUE
  ELSE    /\ \A k \in DOMAIN d : p.min <= d[k] /\ d[k] <= p.max
          /\ \E k \in DOMAIN d : d[k] = p.max
          /\ \E k \in DOMAIN d : d[k] = p.min
          /\ 0 - n <= off /\ off <= n
(* -------------------------------------------------------------- patterns *)
Lit(s) == [k |-> "lit", s |-> s]
Any == [k |-> "any"]
Class(str, cs) == [k |-> "class", s |-> str, cs |-> cs]
Opt(p) == [k |-> "opt", p |-> p]
Star(p) == [k |-> "star", p |-> p]
Plus(p) == [k |-> "plus", p |-> p]
Cat(p, q) == [k |-> "cat", p |-> p, q |-> q]
Alt(p, q) == [k |-> "alt", p |-> p, q |-> q]
All == Star(Any)
RECURSIVE Text(_)
Text(p) == CASE p.k = "lit" -> p.s [] p.k = "any" -> "." [] p.k = "class" -> p.s
             [] p.k = "opt" -> "(" \o Text(p.p) \o ")?"
             [] p.k = "star" -> IF p.p.k = "any" THEN ".*" ELSE "(" \o Text(p.p) \o ")*"
             [] p.k = "plus" -> "(" \o Text(p.p) \o ")+"
             [] p.k = "cat" -> Text(p.p) \o Text(p.q)
             [] p.k = "alt" -> "(" \o Text(p.p) \o "|" \o Text(p.q) \o ")"
\* the positions after which a match of p that starts after one of S may end
RECURSIVE Ends(_, _, _), Closure(_, _, _)
Closure(p, s, S) == LET N == S \cup Ends(p, s, S) IN IF N = S THEN S ELSE Closure(p, s, N)
Ends(p, s, S) ==
  CASE p.k = "lit" -> {i + Len(p.s) : i \in {j \in S : j + Len(p.s) <= Len(s) /\ SubSeq(s, j + 1, j + Len(p.s)) = p.s}}
    [] p.k = "any" -> {i + 1 : i \in {j \in S : j < Len(s)}}
    [] p.k = "class" -> {i + 1 : i \in {j \in S : j < Len(s) /\ Char(s, j + 1) \in p.cs}}
    [] p.k = "opt" -> S \cup Ends(p.p, s, S)
    [] p.k = "star" -> IF p.p.k = "any" THEN UNION {j..Len(s) : j \in S} ELSE Closure(p.p, s, S)
    [] p.k = "plus" -> Closure(p.p, s, Ends(p.p, s, S))
    [] p.k = "cat" -> Ends(p.q, s, Ends(p.p, s, S))
    [] p.k = "alt" -> Ends(p.p, s, S) \cup Ends(p.q, s, S)
Match(p, s) == Len(s) \in Ends(p, s, {0})
Words == {"Exp", "Fast_", "v", "f", "Inv", "Atan", "Atan2", "sin", "Sin", "Apr_", "Identity", "2", "fv"}
Around(w) == {Lit(w), Cat(Lit(w), All), Cat(All, Lit(w)), Cat(All, Cat(Lit(w), All))}
PatternSet ==
  {All, Any, Cat(Any, All), Lit("Nothing")} \cup UNION {Around(w) : w \in Words}
  \cup {Alt(Cat(Lit(v), All), Cat(All, Lit(w))) : v \in {"Exp", "Fast_", "Atan"}, w \in {"v", "f", "Inv", "2"}}
  \cup {Cat(Lit(v), Cat(All, Lit(w))) : v \in {"Fast_", "Identity", "A", "Fast_I"}, w \in {"v", "f", "fv", "n", "nv"}}
  \cup {Cat(Opt(Lit("Fast_")), Cat(Lit(w), Cat(Opt(Lit("f")), Opt(Lit("v"))))) : w \in {"Exp", "Inv", "Inverse", "Atan", "Tan", "Identity2D"}}
  \cup {Cat(All, Cat(Class("[a-e]", {"a", "b", "c", "d", "e"}), Cat(All, Lit(w)))) : w \in {"", "f", "v"}}
  \cup {Cat(Class("[^F]", {"I", "E", "L", "S", "C", "T", "A"}), All), Cat(All, Class("[0-9]", {"2"})), Cat(Plus(Class("[ExpfvLog]", {"E", "x", "p", "f", "v", "L", "o", "g"})), Lit("")),
        Cat(Star(Alt(Lit("Fast"), Lit("_"))), Lit("Log")), Cat(Any, Cat(Any, Any)), Cat(Any, Cat(Any, Cat(Any, Any)))}
=============================================================================
