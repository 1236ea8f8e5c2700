------------------------------- MODULE Ufunc -------------------------------
(* The NumPy module: which universal functions it offers, and what a call of *)
(* one of their loops means.  NumPy hands a loop one address per array, a    *)
(* number of elements and one step per array, which may be one element, more *)
(* than that, negative, or zero for a value used again and again.            *)
(* The implementation runs on a stand-in for the library's array functions:  *)
(* function number k turns numbers a, b, c into 131072 k + a + 50 b + 2500 c *)
(* (k is 32 higher in single precision), so that every function is told from *)
(* every other, and every element and argument too.                          *)
EXTENDS Integers, Sequences, FiniteSets
Table == << <<"asin", 1, 1, 1>>, <<"atan", 2, 1, 1>>, <<"cos", 3, 1, 1>>, <<"exp", 4, 1, 1>>, <<"inv", 5, 1, 1>>,
            <<"log", 6, 1, 1>>, <<"sin", 7, 1, 1>>, <<"isqrt", 8, 1, 1>>, <<"identity", 9, 1, 1>>, <<"sqrt", 10, 1, 1>>,
            <<"atan2", 11, 2, 1>>, <<"div", 12, 2, 1>>, <<"fma", 13, 3, 1>>, <<"fmac", 14, 3, 1>>, <<"sincos", 15, 1, 2>> >>
Functions == [i \in DOMAIN Table |-> [name |-> "vdt_" \o Table[i][1], number |-> Table[i][2], nin |-> Table[i][3], nout |-> Table[i][4]]]
Function(name) == Functions[CHOOSE i \in DOMAIN Functions : Functions[i].name = name]
Known(name) == \E i \in DOMAIN Functions : Functions[i].name = name

Weight == <<1, 50, 2500>>
Sum3(s) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] + s[2] ELSE s[1] + s[2] + s[3]
Value(number, a) == 131072 * number + Sum3([j \in DOMAIN a |-> Weight[j] * a[j]])
\* the content of element k (from 0) of an argument read with a step
Token(step, k) == IF step = 0 THEN 1 ELSE k + 1
\* result number r of element k
Result(f, fmt, r, steps, k) == Value(f.number + r - 1 + (IF fmt = "f" THEN 32 ELSE 0), [j \in 1..f.nin |-> Token(steps[j], k)])

CallVerdict(f, fmt, o) ==
  IF o.end # "returned" THEN "memory outside of the arrays is used, or the call does not end"
  ELSE IF o.moved # 0 THEN "an argument was changed"
  ELSE IF o.around # 0 THEN "written outside of the results"
  ELSE IF \E r \in 1..f.nout : \E k \in 1..o.n : o.out[r][k] # Result(f, fmt, r, o.steps, k - 1) THEN "wrong results"
  ELSE "ok"
=============================================================================
