------------------------------- MODULE Amounts -------------------------------
(* Amounts of TFT: natural numbers of the smallest unit (10^-9 TFT), their  *)
(* notations, and arithmetic. A reading of a notation is                    *)
(*   [r |-> "ok"]    must be accepted, as exactly the amount n              *)
(*   [r |-> "may"]   may be refused, or else has to be exactly n            *)
(*   [r |-> "no"]    must be refused                                        *)
(*   [r |-> "free"]  not specified                                          *)
EXTENDS Prim, BigNat

Ok(n) == [r |-> "ok", n |-> n]
May(n) == [r |-> "may", n |-> n]
No == [r |-> "no", n |-> <<>>]
Free == [r |-> "free", n |-> <<>>]
Weaker(x) == IF x.r = "ok" THEN May(x.n) ELSE x

(* text as bytes *)
IsSpace(b) == b \in {9, 10, 11, 12, 13, 32}
IsDigit(b) == b \in 48..57
RECURSIVE LStrip(_)
LStrip(u) == IF u # <<>> /\ IsSpace(u[1]) THEN LStrip(Tail(u)) ELSE u
RECURSIVE RStrip(_)
RStrip(u) == IF u # <<>> /\ IsSpace(u[Len(u)]) THEN RStrip(SubSeq(u, 1, Len(u) - 1)) ELSE u
StripText(u) == LStrip(RStrip(u))
UpperText(u) == [i \in 1..Len(u) |-> IF u[i] \in 97..122 THEN u[i] - 32 ELSE u[i]]
LowerText(u) == [i \in 1..Len(u) |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]]
AllDigits(u) == \A i \in 1..Len(u) : IsDigit(u[i])
RECURSIVE DigitsFrom(_, _)           \* the position behind the digits that start at i
DigitsFrom(u, i) == IF i <= Len(u) /\ IsDigit(u[i]) THEN DigitsFrom(u, i + 1) ELSE i
DecBytes(u) == IF u = <<>> THEN <<>> ELSE Dec(StrOf(u))
NoughtsOnly(u) == \A i \in 1..Len(u) : u[i] = 48
Noughts(n) == [i \in 1..n |-> 48]

(* the number that the digits d denote, of which the last s are decimals, in smallest units *)
Scaled(d, s) ==
  IF s <= 9 THEN Ok(DecBytes(d \o Noughts(9 - s)))
  ELSE LET cut == s - 9
           keep == IF cut >= Len(d) THEN <<>> ELSE SubSeq(d, 1, Len(d) - cut)
       IN IF NoughtsOnly(SubSeq(d, Len(keep) + 1, Len(d))) THEN Ok(DecBytes(keep)) ELSE No
(* decimal notation: digits, possibly with decimals; a sign, an exponent and omitted digits are tolerated *)
ReadNumber(u) ==
  LET signed == u # <<>> /\ u[1] \in {43, 45}
      neg == signed /\ u[1] = 45
      a == IF signed THEN 2 ELSE 1
      b == DigitsFrom(u, a)                              \* behind the whole part
      dot == b <= Len(u) /\ u[b] = 46
      c == IF dot THEN DigitsFrom(u, b + 1) ELSE b       \* behind the decimals
      whole == SubSeq(u, a, b - 1)
      frac == IF dot THEN SubSeq(u, b + 1, c - 1) ELSE <<>>
      exp == c <= Len(u) /\ u[c] \in {69, 101}
      es == exp /\ c + 1 <= Len(u) /\ u[c + 1] \in {43, 45}
      ed == IF exp THEN SubSeq(u, IF es THEN c + 2 ELSE c + 1, Len(u)) ELSE <<>>
      e == (IF es /\ u[c + 1] = 45 THEN 0 - 1 ELSE 1) * BInt(DecBytes(ed))
      strict == ~signed /\ whole # <<>> /\ (dot => frac # <<>>) /\ ~exp
      v == Scaled(whole \o frac \o (IF exp /\ e > Len(frac) THEN Noughts(e - Len(frac)) ELSE <<>>),
                  IF exp /\ e > Len(frac) THEN 0 ELSE Len(frac) - e)
  IN IF \E i \in 1..Len(u) : u[i] = 95 \/ u[i] > 127 THEN Free
     ELSE IF whole \o frac = <<>> THEN No
     ELSE IF exp /\ (ed = <<>> \/ ~AllDigits(ed)) THEN No
     ELSE IF exp /\ Len(ed) > 3 THEN Free
     ELSE IF ~exp /\ c # Len(u) + 1 THEN No
     ELSE IF v.r = "no" THEN No
     ELSE IF neg THEN (IF v.n = <<>> THEN May(<<>>) ELSE No)
     ELSE IF strict THEN v ELSE May(v.n)
(* an amount given as text, with or without the unit *)
Unit == <<84, 70, 84>>
ReadText(s) ==
  LET u == StripText(UpperText(Utf8(s)))
  IN IF Len(u) >= 4 /\ SubSeq(u, Len(u) - 2, Len(u)) = Unit
     THEN (LET v == RStrip(SubSeq(u, 1, Len(u) - 3)) IN IF v # <<>> THEN ReadNumber(v) ELSE No)
     ELSE ReadNumber(u)
(* an amount given as an integer: whole TFT *)
ReadInt(s) == IF IsDec(s) THEN Ok(DecBytes(Utf8(s) \o Noughts(9))) ELSE No
(* a fractional number is an amount only where it can be represented exactly *)
ReadDecimal(s) == Weaker(ReadNumber(Utf8(s)))
(* the form in JSON: the number of smallest units as a string of digits *)
ReadJson(j) ==
  IF j[1] = "n" \/ (j[1] = "s" /\ j[2] = "") THEN May(<<>>)
  ELSE IF j[1] # "s" THEN No
  ELSE LET u == Utf8(j[2]) t == StripText(u)
       IN IF u # <<>> /\ AllDigits(u) THEN (IF Len(u) = 1 \/ u[1] # 48 THEN Ok(DecBytes(u)) ELSE May(DecBytes(u)))
          ELSE IF \E i \in 1..Len(t) : t[i] \in {95, 69, 101} \/ t[i] > 127 THEN Free
          ELSE LET v == ReadNumber(t)      \* of units instead of TFT: may not have any decimals
                   k == Len(ToDec(v.n))
               IN IF v.r \in {"no", "free"} THEN v
                  ELSE IF v.n = <<>> THEN May(<<>>)
                  ELSE IF k > 9 /\ NoughtsOnly(SubSeq(Utf8(ToDec(v.n)), k - 8, k)) THEN May(DecBytes(SubSeq(Utf8(ToDec(v.n)), 1, k - 9)))
                  ELSE No

(* canonical notation *)
RECURSIVE DropNoughts(_)
DropNoughts(u) == IF u # <<>> /\ u[Len(u)] = 48 THEN DropNoughts(SubSeq(u, 1, Len(u) - 1)) ELSE u
AmountText(n) ==
  LET d == Utf8(ToDec(n))
      p == IF Len(d) < 10 THEN Noughts(10 - Len(d)) \o d ELSE d
      f == DropNoughts(SubSeq(p, Len(p) - 8, Len(p)))
  IN StrOf(SubSeq(p, 1, Len(p) - 9) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f))

(* arithmetic; the product of two amounts of TFT has up to 18 decimals *)
RECURSIVE BTimes(_, _)
BTimes(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE BNorm(BAdd(BMul(a, b[1]), <<0>> \o BTimes(a, Tail(b))))
Plus(a, b) == Ok(BAdd(a, b))
Minus(a, b) == IF BLeq(b, a) THEN Ok(BSub(a, b)) ELSE No
Times(a, b) == LET d == Utf8(ToDec(BTimes(a, b))) IN IF BTimes(a, b) = <<>> THEN Ok(<<>>) ELSE Scaled(d, 18)
=============================================================================
