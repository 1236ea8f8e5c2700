------------------------------- MODULE VcWrap -------------------------------
(* The wrappers around the Vc vector library: which there are, which Vc      *)
(* function each stands for, what a call means for the arrays it is given,   *)
(* and which inputs the lists of the measuring programs give it.             *)
(* The implementation runs on a stand-in for Vc whose function number k      *)
(* turns a number v into v + 4096 k: every function is told from every other *)
(* and every element from every other.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Bases == <<"asin", "atan", "cos", "identity", "inv", "isqrt", "log", "sin">>
Fmts == <<"d", "f">>
\* numbers of the stand-in's functions; identity needs none
Number(base) == CASE base = "identity" -> 0
                  [] base = "asin" -> 1 [] base = "atan" -> 2 [] base = "cos" -> 3 [] base = "log" -> 4
                  [] base = "sin" -> 5 [] base = "inv" -> 6       \* Vc::reciprocal
                  [] base = "isqrt" -> 7                           \* Vc::rsqrt
Value(base, v) == v + 4096 * Number(base)
Scalar(base, fmt) == "vc_" \o base \o (IF fmt = "f" THEN "f" ELSE "")
Array(base, fmt) == Scalar(base, fmt) \o "v"
Names == [i \in 1..32 |-> LET b == Bases[((i - 1) % 8) + 1]  f == Fmts[(((i - 1) \div 8) % 2) + 1] IN
            [base |-> b, fmt |-> f, array |-> i > 16, name |-> IF i > 16 THEN Array(b, f) ELSE Scalar(b, f)]]

\* an array call: nothing but the n results is written, nothing outside the n arguments is read
CallOK(base, o) ==
  /\ o.end = "returned" /\ o.around = 0 /\ o.moved = 0
  /\ Len(o.out) = Len(o.inp)
  /\ \A k \in DOMAIN o.inp : o.out[k] = Value(base, o.inp[k])

\* the lists of the measuring programs
Listed == << <<"Identity", "identity">>, <<"Log", "log">>, <<"Sin", "sin">>, <<"Cos", "cos">>, <<"Asin", "asin">>,
             <<"Atan", "atan">>, <<"Isqrt", "isqrt">>, <<"Inverse", "inv">> >>
Pool(base) == CASE base \in {"log", "isqrt"} -> "positive" [] base = "asin" -> "unit" [] OTHER -> "symmetric"
Entries == [i \in 1..32 |-> LET l == Listed[((i - 1) % 8) + 1]  f == Fmts[(((i - 1) \div 8) % 2) + 1] IN
              [base |-> l[2], fmt |-> f, array |-> i > 16,
               name |-> "VC_" \o l[1] \o (IF f = "f" THEN "f" ELSE "") \o (IF i > 16 THEN "v" ELSE "")]]
=============================================================================
