------------------------------ MODULE Wrappers ------------------------------
(* The names that forward to the fast functions.  Each row is one exported   *)
(* symbol: the library it is in, the function it stands for, its precision   *)
(* and its shape (s: scalar, v: array; 1, 2, 3: number of arguments; j: one  *)
(* argument and two results).                                                *)
EXTENDS Arrays, Sequences
Row(lib, sym, base, fmt, shape) == [lib |-> lib, sym |-> sym, base |-> base, fmt |-> fmt, shape |-> shape]
Two(n) == IF n = "atan2" THEN "2" ELSE "1"
\* C++ name of the global overload for float
Len2(n) == CASE n \in {"atan2"} -> "5" [] n \in {"asin", "acos", "atan", "tanh"} -> "4" [] OTHER -> "3"
Overload(n) == "_Z" \o Len2(n) \o n \o (IF n = "atan2" THEN "ff" ELSE "f")
PreloadRows == [i \in 1..30 |-> LET n == Libm[((i - 1) % 10) + 1] IN
   IF i <= 10 THEN Row("preload", n, n, "d", "s" \o Two(n))
   ELSE IF i <= 20 THEN Row("preload", n \o "f", n, "f", "s" \o Two(n))
   ELSE Row("preload", Overload(n), n, "f", "s" \o Two(n))]
\* the names an unmodified C program reaches
ProgramRows == [i \in 1..20 |-> [PreloadRows[i] EXCEPT !.lib = "program"]]
FatNames == <<"asin", "atan", "atan2", "cos", "exp", "inv", "log", "sin", "sincos", "isqrt", "identity", "sqrt", "div", "fma", "fmac">>
Ar(n) == CASE n \in {"atan2", "div"} -> "2" [] n \in {"fma", "fmac"} -> "3" [] n = "sincos" -> "j" [] OTHER -> "1"
FatRows == [i \in 1..60 |-> LET n == FatNames[((i - 1) % 15) + 1] q == (i - 1) \div 15 IN
   CASE q = 0 -> Row("fat", "vdt_" \o n, n, "d", "s" \o Ar(n))
     [] q = 1 -> Row("fat", "vdt_" \o n \o "f", n, "f", "s" \o Ar(n))
     [] q = 2 -> Row("fat", "vdt_" \o n \o "v", n, "d", "v" \o Ar(n))
     [] q = 3 -> Row("fat", "vdt_" \o n \o "fv", n, "f", "v" \o Ar(n))]
Rows == PreloadRows \o ProgramRows \o FatRows
FmtR(r) == IF r.fmt = "d" THEN F64 ELSE F32
=============================================================================
