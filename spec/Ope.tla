--------------------------------- MODULE Ope ---------------------------------
(***************************************************************************)
(* Order-preserving encryption: `map` is the part of the encryption         *)
(* function seen so far, as pairs <<plaintext, ciphertext>> of big          *)
(* integers.  cfg has the ranges and, in `all`, the size of the input range *)
(* if it is small enough to be enumerated (otherwise 0).                    *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

VARIABLE map

OInit == map = {}

In(x, lo, hi) == BLe(lo, x) /\ BLe(x, hi)
\* <<p, c>> is consistent with a strictly increasing function
Increasing(p, c) == \A q \in map : BCmp(p, q[1]) = BCmp(c, q[2])

OEncBad(e, cfg) ==
  IF ~In(e.p, cfg.ilo, cfg.ihi) THEN IF e.o = "err" THEN "" ELSE "accepted-out-of-range"
  ELSE IF e.o # "ok" THEN "refused"
  ELSE IF ~In(e.c, cfg.olo, cfg.ohi) THEN "out-of-range"
  ELSE IF \E q \in map : BEq(q[1], e.p) /\ ~BEq(q[2], e.c) THEN "not-deterministic"
  ELSE IF ~Increasing(e.p, e.c) THEN "not-increasing" ELSE ""
OEnc(e) == map' = IF e.o = "ok" THEN map \cup {<<e.p, e.c>>} ELSE map

ODecBad(e, cfg) ==
  IF ~In(e.c, cfg.olo, cfg.ohi) THEN IF e.o = "err" THEN "" ELSE "accepted-out-of-range"
  ELSE IF \E q \in map : BEq(q[2], e.c) /\ (e.o # "ok" \/ ~BEq(q[1], e.p)) THEN "not-inverted"
  ELSE IF e.o = "ok" /\ ~In(e.p, cfg.ilo, cfg.ihi) THEN "out-of-range"
  ELSE IF e.o = "ok" /\ ~Increasing(e.p, e.c) THEN "not-increasing"
  ELSE IF e.o = "ok" /\ cfg.all > 0 /\ Cardinality(map) = cfg.all /\ <<e.p, e.c>> \notin map THEN "decrypts-nothing" ELSE ""
ODec(e) == map' = IF e.o = "ok" THEN map \cup {<<e.p, e.c>>} ELSE map
=============================================================================
