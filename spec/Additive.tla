------------------------------ MODULE Additive ------------------------------
(***************************************************************************)
(* The additively homomorphic cipher: `val` maps every ciphertext made so   *)
(* far to its value; the answer for a product of ciphertexts is a sum.      *)
(***************************************************************************)
EXTENDS BigNum

VARIABLE val    \* sequence of [c, v]: ciphertext (text), value

AInit == val = <<>>

AEncBad(e) ==
  IF e.o # "ok" THEN "refused"
  ELSE IF \E i \in 1..Len(val) : val[i].c = e.c THEN "not-randomised" ELSE ""
AEnc(e) == val' = Append(val, [c |-> e.c, v |-> e.v])

Sum(q) == BSum([i \in 1..Len(q) |-> val[q[i]].v])
\* form: "sum" r = sum; "round" r = 10^4 * average, rounded; "avg" r = 2^60 * average
\* averages are doubles: relative error 2^-50
CombineBad(e, k) ==
  LET s == Sum(e.of)
      n == BOf(Len(e.of))
  IN IF e.o # "ok" THEN "refused"
     ELSE CASE e.form = "sum" -> IF BEq(e.r, s) THEN "" ELSE "wrong-sum"
            [] e.form = "round" ->
                 LET d == BAbs(BSub(BMul(e.r, n), BMul(s, k.tenk)))
                 IN IF BLe(BMul(BSub(BMul(d, BOf(2)), n), k.p50), BMul(BAbs(s), BOf(20000))) THEN "" ELSE "wrong-average"
            [] e.form = "avg" ->
                 LET d == BAbs(BSub(BMul(e.r, n), BMul(s, k.p60)))
                 IN IF BLe(BMul(BSub(d, n), k.p50), BMul(BAbs(s), k.p60)) THEN "" ELSE "wrong-average"
=============================================================================
