------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian base-256 digit sequences   *)
(* without trailing zero digits (zero is the empty sequence).              *)
EXTENDS Integers, Sequences

RECURSIVE BNorm(_)
BNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BOfInt(_)
BOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BOfInt(n \div 256)

BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == BDigit(a, i) + BDigit(b, i) + c IN <<s % 256>> \o BAddFrom(a, b, i + 1, s \div 256)
BAdd(a, b) == BAddFrom(a, b, 1, 0)

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - BDigit(b, i) - c
       IN <<IF s < 0 THEN s + 256 ELSE s>> \o BSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BNorm(BSubFrom(a, b, 1, 0))      \* requires BLeq(b, a)

RECURSIVE BLeqAt(_, _, _)
BLeqAt(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLeqAt(a, b, i - 1)
BLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLeqAt(a, b, Len(a))
BLt(a, b) == BLeq(a, b) /\ a # b

RECURSIVE BMulFrom(_, _, _, _)
BMulFrom(a, k, i, c) ==
  IF i > Len(a) THEN BOfInt(c)
  ELSE LET s == a[i] * k + c IN <<s % 256>> \o BMulFrom(a, k, i + 1, s \div 256)
BMul(a, k) == IF k = 0 THEN <<>> ELSE BMulFrom(a, k, 1, 0)   \* 0 <= k < 2^20

RECURSIVE BSum(_)
BSum(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSum(Tail(s)))

(* a BigNat as a TLC integer; all that do not fit are the largest one *)
BIsSmall(a) == Len(a) < 4 \/ (Len(a) = 4 /\ a[4] < 128)
RECURSIVE BIntOf(_)
BIntOf(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * BIntOf(Tail(a))
BInt(a) == IF BIsSmall(BNorm(a)) THEN BIntOf(BNorm(a)) ELSE 2147483647

(* n digits, least significant first *)
BPad(a, n) == [i \in 1..n |-> BDigit(a, i)]
BRev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
=============================================================================
