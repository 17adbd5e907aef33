------------------------------ MODULE OpeDesign ------------------------------
(***************************************************************************)
(* The bisection that makes the order-preserving function, with every       *)
(* possible outcome of its sampler: the sampler is asked how many of the    *)
(* remaining plaintexts fall into the lower half of the remaining outputs   *)
(* and may answer anything possible; at the end any remaining output is     *)
(* chosen.  Whatever it answers, the result is increasing and inverted by   *)
(* the same descent.  A step of this machine resolves one open interval.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS MaxIn, MaxOut

VARIABLES ins, outs,   \* the two ranges: sizes (both start at 1)
          open,        \* intervals to resolve: <<ilo, ihi, olo, ohi>>
          cut,         \* resolved: <<ilo, ihi, olo, ohi>> -> <<x, mid>>
          leaf         \* plaintext -> ciphertext

vars == <<ins, outs, open, cut, leaf>>

Put(f, k, v) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN v ELSE f[z]]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ ins \in 1..MaxIn /\ outs \in ins..MaxOut
        /\ open = {<<1, ins, 1, outs>>} /\ cut = <<>> /\ leaf = <<>>

Mid(w) == w[3] - 1 + ((w[4] - w[3] + 2) \div 2)          \* olo - 1 + ceil(size / 2)
\* the number of plaintexts in the lower half
Counts(w) ==
  LET m == w[2] - w[1] + 1
      n == w[4] - w[3] + 1
      low == Mid(w) - w[3] + 1
  IN IF m = n THEN {low} ELSE Max(0, m - (n - low))..Min(m, low)
X(w, k) == IF k = 0 THEN w[1] ELSE w[1] + k - 1

Split(w) ==
  /\ w \in open /\ w[1] < w[2]
  /\ \E k \in Counts(w) :
       LET x == X(w, k)
           lower == <<w[1], x, w[3], Mid(w)>>
           upper == <<x + 1, w[2], Mid(w) + 1, w[4]>>
       IN /\ open' = (open \ {w}) \cup {lower} \cup (IF x < w[2] THEN {upper} ELSE {})
          /\ cut' = Put(cut, w, <<x, Mid(w)>>)
          /\ UNCHANGED <<ins, outs, leaf>>
Choose(w) ==
  /\ w \in open /\ w[1] = w[2]
  /\ \E c \in w[3]..w[4] : leaf' = Put(leaf, w[1], c)
  /\ open' = open \ {w}
  /\ cut' = Put(cut, w, <<0, 0>>)
  /\ UNCHANGED <<ins, outs>>

\* the order in which the intervals are resolved does not matter
First == CHOOSE w \in open : \A v \in open : w[1] <= v[1]
Next == open # {} /\ (Split(First) \/ Choose(First))
Spec == Init /\ [][Next]_vars

\* every open interval can still be resolved
Fits == \A w \in open : w[1] <= w[2] /\ w[3] <= w[4] /\ w[2] - w[1] <= w[4] - w[3]
\* the sampler is asked once for every interval: determinism
Once == \A v, w \in DOMAIN cut : v # w /\ v[1] = w[1] /\ v[2] = w[2] => v[3] # w[3] \/ v[4] # w[4]

Increasing == \A p, q \in DOMAIN leaf : p < q => leaf[p] < leaf[q]
InRange == \A p \in DOMAIN leaf : leaf[p] \in 1..outs

\* decryption: the same descent by the output
RECURSIVE Dec(_, _)
Dec(c, w) ==
  IF w[1] > w[2] THEN 0              \* nothing is left: rejected
  ELSE IF w[1] = w[2] THEN IF leaf[w[1]] = c THEN w[1] ELSE 0
  ELSE IF c <= cut[w][2] THEN Dec(c, <<w[1], cut[w][1], w[3], cut[w][2]>>)
       ELSE Dec(c, <<cut[w][1] + 1, w[2], cut[w][2] + 1, w[4]>>)
Inverts ==
  open = {} => \A c \in 1..outs :
    Dec(c, <<1, ins, 1, outs>>) = IF \E p \in 1..ins : leaf[p] = c THEN CHOOSE p \in 1..ins : leaf[p] = c ELSE 0
Total == open = {} => DOMAIN leaf = 1..ins
=============================================================================
