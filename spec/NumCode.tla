------------------------------- MODULE NumCode -------------------------------
(***************************************************************************)
(* The fixed point code of numbers.  Values are big integers in units of    *)
(* 2^-100, codes are big integers; `codes` holds the pairs seen so far.     *)
(***************************************************************************)
EXTENDS BigNum

VARIABLE codes

NInit == codes = {}

\* constants of the trace: tol = 10^-12, thousand = 10^3, exact = 10^15 in the unit of values; p50 = 2^50
EncodeBad(e, k) ==
  IF e.o # "ok" THEN "refused"
  ELSE IF \E q \in codes : (BLt(q[1], e.v) /\ BLt(e.c, q[2])) \/ (BLt(e.v, q[1]) /\ BLt(q[2], e.c)) THEN "not-monotone"
  ELSE IF \E q \in codes : BEq(q[1], e.v) /\ ~BEq(q[2], e.c) THEN "not-deterministic"
  ELSE IF BLe(BAbs(e.v), k.thousand)
          /\ \E q \in codes : /\ BLe(BAbs(q[1]), k.thousand) /\ BEq(q[2], e.c)
                              /\ BLt(k.tol2, BAbs(BSub(q[1], e.v))) THEN "collision" ELSE ""
Encode(e) == codes' = codes \cup {<<e.v, e.c>>}

DecodeBad(e, k) ==
  LET d == BAbs(BSub(e.w, e.v))
  IN IF e.o # "ok" THEN "refused"
     ELSE IF BLe(BAbs(e.v), k.thousand) THEN IF BLe(d, k.tol) THEN "" ELSE "inexact"
     ELSE IF BLe(BAbs(e.v), k.exact) /\ BLt(BAbs(e.v), BMul(d, k.p50)) THEN "inexact" ELSE ""

\* numbers without fraction and texts are stored as they are
SameBad(e) == IF e.o = "ok" /\ e.same THEN "" ELSE "not-identity"
=============================================================================
