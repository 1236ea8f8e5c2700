----------------------------- MODULE Described -----------------------------
(* What the header and the decimal columns of a written file say.            *)
(* Observed file: head (the first five lines), rows of                       *)
(* [x: inputs as bit patterns, dec: the same inputs as printed], n data rows.*)
(* A printed number is [ok, s: sign, d: its digits as limbs, p: number of    *)
(* digits after the point]; value = d * 10^-p.                               *)
EXTENDS IEEE, TLC
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == Len(p) = 0 \/ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
\* what follows the first "= "
Equal(s, i) == i < Len(s) /\ SubSeq(s, i, i + 1) = "= "
After(s) ==
  IF \E i \in 1..Len(s) : Equal(s, i)
  THEN LET k == CHOOSE i \in 1..Len(s) : Equal(s, i) /\ \A j \in 1..(i - 1) : ~Equal(s, j)
       IN SubSeq(s, k + 2, Len(s))
  ELSE "(nothing)"
Precision(f) == IF f = "d" THEN "Double Precision" ELSE "Single Precision"
Decimals(f) == IF f = "d" THEN 15 ELSE 6

-----------------------------------------------------------------------------
\* a * m + c for an ordinary integer m below 2^15, same length as a
RECURSIVE TimesFrom(_, _, _, _, _)
TimesFrom(a, m, i, carry, acc) ==
  IF i = 0 THEN acc
  ELSE LET s == a[i] * m + carry IN TimesFrom(a, m, i - 1, s \div LB, <<s % LB>> \o acc)
Times(a, m) == TimesFrom(a, m, Len(a), 0, <<>>)
RECURSIVE Tens(_, _)
Tens(a, p) == IF p = 0 THEN a ELSE IF p >= 4 THEN Tens(Times(a, 10000), p - 4) ELSE Tens(Times(a, 10), p - 1)

\* the printed number is the nearest one with p decimals: |2 x 10^p - 2 d| <= 1
Nearest(f, b, q) ==
  LET F  == IF f = "d" THEN F64 ELSE F32
      e  == Exp2Of(F, b) - F.mb                    \* x = significand * 2^e
      up == IF e > 0 THEN e ELSE 0
      dn == IF e < 0 THEN 0 - e ELSE 0
      w  == 10 + (up + dn) \div 16 + Len(q.d)
      X  == ShlL(Tens(ResizeL(SigOf(F, b), w), q.p), up + 1)
      D  == ShlL(ResizeL(q.d, w), dn + 1)
  IN /\ q.ok = 1
     /\ q.p = Decimals(f)
     /\ q.s = SignOf(F, b) \/ IsZeroL(q.d)
     /\ LeqL(DistL(X, D), ShlL(OneL(w), dn))

-----------------------------------------------------------------------------
\* a limit of a pool in quarters, printed as a number of few digits (ordinary integers)
RECURSIVE Pow10(_)
Pow10(p) == IF p = 0 THEN 1 ELSE 10 * Pow10(p - 1)
Quarters(v, q) == q.ok = 1 /\ 4 * q.v = v * Pow10(q.p)
QuartersAll(vs, qs) == Len(vs) = Len(qs) /\ \A k \in DOMAIN vs : Quarters(vs[k], qs[k])

Header(c, o) ==
  IF Len(o.head) # 5 THEN "the header has not five lines"
  ELSE IF o.head[2] # Precision(c.fmt) THEN "the second line does not state the precision of the data"
  ELSE IF c.kind \in {"pool1", "pool2"} /\ ~QuartersAll(c.min, o.min) THEN "the header does not state the lower limit of the pool"
  ELSE IF c.kind \in {"pool1", "pool2"} /\ ~QuartersAll(c.max, o.max) THEN "the header does not state the upper limit of the pool"
  ELSE IF c.kind \in {"pool1", "pool2"} /\ After(o.head[5]) # ToString(c.n) THEN "the header does not state the number of values"
  ELSE IF c.kind \notin {"pool1", "pool2"} /\ After(o.head[3]) # c.name THEN "the header does not state the name"
  ELSE IF o.n # c.n * (IF c.kind = "pool2" THEN 2 ELSE 1) THEN "the number of values is not the one in the object"
  ELSE "ok"

Row(c, r) ==
  IF Len(r.dec) # Len(r.x) THEN "the row has not one decimal number per input"
  ELSE IF \E k \in DOMAIN r.x : IsFinite(IF c.fmt = "d" THEN F64 ELSE F32, r.x[k]) /\ ~Nearest(c.fmt, r.x[k], r.dec[k])
  THEN "a decimal number is not the input of its row" ELSE "ok"

\* file o written by an object read from file p, which was called from
Copied(p, o, from) ==
  IF Len(o.head) # 5 THEN "the header has not five lines"
  ELSE IF SubSeq(o.head, 2, 5) # SubSeq(p.head, 2, 5) THEN "the header is not the one of the file that was read"
  ELSE IF ~Contains(o.head[1], from) THEN "the first line does not name the file that was read"
  ELSE IF o.n # p.n THEN "the number of values is not the one of the file that was read"
  ELSE IF o.rows # p.rows THEN "the rows are not those of the file that was read"
  ELSE "ok"
Title(fn, ref, test) == fn \o " " \o ref \o " VS " \o test
=============================================================================
