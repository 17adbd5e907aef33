------------------------------- MODULE BigNum -------------------------------
(* Arbitrary size integers for TLC, whose own integers have 32 bits.         *)
(* A natural number is a sequence of base 10^4 digits, least significant     *)
(* first, without leading zeros; an integer is [s |-> -1 | 0 | 1, m |-> nat]. *)
EXTENDS Integers, Sequences

BASE == 10000

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NAddC(_, _, _, _)
NAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET d == Digit(a, i) + Digit(b, i) + c
       IN <<d % BASE>> \o NAddC(a, b, i + 1, d \div BASE)
NAdd(a, b) == NAddC(a, b, 1, 0)

RECURSIVE NSubC(_, _, _, _)
NSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - Digit(b, i) - c
       IN <<IF d < 0 THEN d + BASE ELSE d>> \o NSubC(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubC(a, b, 1, 0))          \* a >= b

RECURSIVE NCmpC(_, _, _)
NCmpC(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE NCmpC(a, b, i - 1)
NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpC(a, b, Len(a))

RECURSIVE NMulDC(_, _, _, _)
NMulDC(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == a[i] * d + c IN <<x % BASE>> \o NMulDC(a, d, i + 1, x \div BASE)
NMulD(a, d) == NTrim(NMulDC(a, d, 1, 0))        \* one digit
RECURSIVE NMulC(_, _, _)
NMulC(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET r == NMulC(a, b, i + 1)
       IN NAdd(NMulD(a, b[i]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
NMul(a, b) == NMulC(a, b, 1)

RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NOf(n \div BASE)

Zero == [s |-> 0, m |-> <<>>]
Sg(m, s) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
BOf(n) == IF n < 0 THEN Sg(NOf(0 - n), -1) ELSE Sg(NOf(n), 1)
Neg(x) == [s |-> 0 - x.s, m |-> x.m]
BAdd(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN Sg(NAdd(x.m, y.m), x.s)
  ELSE IF NCmp(x.m, y.m) >= 0 THEN Sg(NSub(x.m, y.m), x.s) ELSE Sg(NSub(y.m, x.m), y.s)
BSub(x, y) == BAdd(x, Neg(y))
BMul(x, y) == Sg(NMul(x.m, y.m), x.s * y.s)
BCmp(x, y) ==
  IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
  ELSE IF x.s = 0 THEN 0 ELSE IF x.s = 1 THEN NCmp(x.m, y.m) ELSE NCmp(y.m, x.m)
BEq(x, y) == BCmp(x, y) = 0
BLt(x, y) == BCmp(x, y) < 0
BLe(x, y) == BCmp(x, y) <= 0
BAbs(x) == Sg(x.m, 1)
IsNat(m) == /\ \A i \in 1..Len(m) : m[i] \in 0..(BASE - 1)
            /\ m # <<>> => m[Len(m)] # 0
IsBig(x) == IsNat(x.m) /\ x.s \in {-1, 0, 1} /\ (x.s = 0 <=> x.m = <<>>)
RECURSIVE BSum(_)
BSum(q) == IF q = <<>> THEN Zero ELSE BAdd(q[1], BSum(Tail(q)))
=============================================================================
