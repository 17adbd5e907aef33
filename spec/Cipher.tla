------------------------------- MODULE Cipher -------------------------------
(***************************************************************************)
(* What the ciphers promise.  A symmetric cipher is, for every key, one     *)
(* injective function of the text that decryption inverts, and different    *)
(* keys are different functions (of texts that are not empty); `known` is   *)
(* the part of these functions seen so far.  A fuzzy cipher maps            *)
(* containment of texts to containment of ciphertexts.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE known     \* set of [a, k, t, c]: algorithm, key, text, ciphertext

CInit == known = {}

Contains(piece, s) ==
  \E i \in 0..(Len(s) - Len(piece)) : \A j \in 1..Len(piece) : s[i + j] = piece[j]

EncBad(e) ==
  IF e.o # "ok" THEN "refused"
  ELSE IF \E x \in known : x.a = e.a /\ x.k = e.k /\ x.t = e.t /\ x.c # e.c THEN "not-deterministic"
  ELSE IF \E x \in known : x.a = e.a /\ x.k = e.k /\ x.t # e.t /\ x.c = e.c THEN "not-injective"
  ELSE IF e.t # "" /\ \E x \in known : x.a = e.a /\ x.k # e.k /\ x.t = e.t /\ x.c = e.c THEN "keys-not-separated"
  ELSE IF Len(e.tc) >= 8 /\ Contains(e.tc, e.cc) THEN "text-visible" ELSE ""
Enc(e) == known' = known \cup {[a |-> e.a, k |-> e.k, t |-> e.t, c |-> e.c]}

\* what was never produced by an encryption may be decrypted to anything
DecBad(e) ==
  IF \E x \in known : x.a = e.a /\ x.k = e.k /\ x.c = e.c /\ (e.o # "ok" \/ x.t # e.t) THEN "not-inverted" ELSE ""

\* tc, pc: text and piece; cc, qc: their ciphertexts
FuzzyBad(e) ==
  IF e.o # "ok" THEN "refused"
  ELSE IF Contains(e.pc, e.tc) # Contains(e.qc, e.cc) THEN "containment" ELSE ""
=============================================================================
