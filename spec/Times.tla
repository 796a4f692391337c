-------------------------------- MODULE Times --------------------------------
(* Time locks: heights, seconds since 1970 (UTC), texts of dates and         *)
(* durations. Readings are as in Amounts; those of durations (and of dates   *)
(* relative to now) are offsets.                                             *)
EXTENDS Amounts, FiniteSets

Threshold == BOfInt(500000000)
Mod(a, b) == a % b
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
(* days between 1 January 1970 and a date from then on *)
RECURSIVE MonthsBefore(_, _)
MonthsBefore(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + MonthsBefore(y, m - 1)
LeapsBefore(y) == LET k == y - 1 IN k \div 4 - k \div 100 + k \div 400
Days(y, m, d) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970) + MonthsBefore(y, m) + d - 1
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
Seconds(y, m, d, secs) == BAdd(BMul(BOfInt(Days(y, m, d)), 86400), BOfInt(secs))

RECURSIVE SplitText(_, _, _, _)
SplitText(u, sep, i, cur) ==
  IF i > Len(u) THEN <<cur>>
  ELSE IF u[i] = sep THEN <<cur>> \o SplitText(u, sep, i + 1, <<>>)
  ELSE SplitText(u, sep, i + 1, Append(cur, u[i]))
Pieces(u, sep) == SplitText(u, sep, 1, <<>>)
Num(u) == BInt(DecBytes(u))
IsNum(u, lens) == Len(u) \in lens /\ AllDigits(u)

(* a date: year/month/day, day/month/year, or with a year of two digits; two pieces are of the current year *)
ReadDate(u, year) ==
  LET p == Pieces(u, 47)
      at(y, m, d) == IF y >= 1970 THEN (IF Valid(y, m, d) THEN <<y, m, d>> ELSE <<>>) ELSE <<>>
  IN IF \E k \in 1..Len(p) : p[k] = <<>> \/ ~AllDigits(p[k]) \/ Len(p[k]) > 4 THEN <<>>
     ELSE IF Len(p) = 2 /\ IsNum(p[1], {1, 2}) /\ IsNum(p[2], {1, 2}) THEN at(year, Num(p[1]), Num(p[2]))
     ELSE IF Len(p) # 3 THEN <<>>
     ELSE IF IsNum(p[1], {4}) /\ IsNum(p[2], {1, 2}) /\ IsNum(p[3], {1, 2}) THEN at(Num(p[1]), Num(p[2]), Num(p[3]))
     ELSE IF IsNum(p[3], {4}) /\ IsNum(p[2], {1, 2}) /\ IsNum(p[1], {1, 2}) THEN at(Num(p[3]), Num(p[2]), Num(p[1]))
     ELSE IF Len(p[1]) = 2 /\ \A k \in 1..3 : IsNum(p[k], {1, 2}) THEN at(Num(p[1]) + (IF Num(p[1]) < 69 THEN 2000 ELSE 1900), Num(p[2]), Num(p[3]))
     ELSE <<>>
(* a time of the day: 22:50, 22:50:09, 10pm:50, 10pm:50:09; in seconds, or <<>> *)
ReadClock(u) ==
  LET p == Pieces(LowerText(u), 58)
      h == p[1]
      half == Len(h) >= 3 /\ h[Len(h)] = 109 /\ h[Len(h) - 1] \in {97, 112}
      hd == IF half THEN SubSeq(h, 1, Len(h) - 2) ELSE h
      hour == IF half THEN Mod(Num(hd),12) + (IF h[Len(h) - 1] = 112 THEN 12 ELSE 0) ELSE Num(hd)
  IN IF Len(p) \notin {2, 3} \/ ~IsNum(hd, {1, 2}) \/ (\E k \in 2..Len(p) : ~IsNum(p[k], {1, 2})) THEN <<>>
     ELSE IF (half /\ Num(hd) \notin 1..12) \/ hour > 23 \/ (\E k \in 2..Len(p) : Num(p[k]) > 59) THEN <<>>
     ELSE <<3600 * hour + 60 * Num(p[2]) + (IF Len(p) = 3 THEN Num(p[3]) ELSE 0)>>
(* no valid lock: earlier than any time that the chain takes for one *)
Late(n) == IF BLeq(Threshold, n) THEN Ok(n) ELSE No
ReadMoment(u, year) ==
  LET p == Pieces(u, 32)
      clock == IF Len(p) = 2 THEN ReadClock(p[2]) ELSE <<0>>
      d == ReadDate(p[1], year)
      plain(x) == IsDigit(x) \/ x \in {32, 47, 58, 97, 112, 109, 65, 80, 77}
  IN IF u = <<48>> THEN Ok(<<>>)
     ELSE IF Len(p) > 2 \/ \E k \in 1..Len(u) : ~plain(u[k]) THEN (IF \E k \in 1..Len(u) : u[k] \in (9..13) \cup {34, 39} \/ u[k] > 127 THEN Free ELSE IF Len(p) > 2 THEN Free ELSE No)
     ELSE IF d = <<>> \/ clock = <<>> THEN (IF Len(p) = 2 /\ \E k \in 1..Len(Pieces(p[2], 58)) : Pieces(p[2], 58)[k] \in {<<54, 48>>, <<54, 49>>} THEN Free ELSE No)
     ELSE Late(Seconds(d[1], d[2], d[3], clock[1]))

(* durations: seconds, or amounts of days, hours, minutes and seconds in that order, with up to three decimals *)
UnitSecs(b) == CASE b = 100 -> 86400 [] b = 104 -> 3600 [] b = 109 -> 60 [] b = 115 -> 1 [] OTHER -> 0
UnitRank(b) == CASE b = 100 -> 1 [] b = 104 -> 2 [] b = 109 -> 3 [] b = 115 -> 4 [] OTHER -> 0
RECURSIVE DurationParts(_, _)
(* <<whole, thousandths, unit>> for each part, or <<"bad">> / <<"free">> as the last one *)
DurationParts(u, i) ==
  IF i > Len(u) THEN <<>>
  ELSE LET b == DigitsFrom(u, i)
           dot == b <= Len(u) /\ u[b] = 46
           c == IF dot THEN DigitsFrom(u, b + 1) ELSE b
           whole == SubSeq(u, i, b - 1)
           frac == IF dot THEN SubSeq(u, b + 1, c - 1) ELSE <<>>
       IN IF c > Len(u) \/ (whole = <<>> /\ frac = <<>>) \/ UnitRank(u[c]) = 0 THEN <<<<"bad">>>>
          ELSE IF Len(frac) > 3 \/ Len(whole) > 7 THEN <<<<"free">>>>
          ELSE <<<<DecBytes(whole), Num(frac \o Noughts(3 - Len(frac))), u[c], dot /\ (whole = <<>> \/ frac = <<>>)>>>> \o DurationParts(u, c + 1)
ReadDuration(u) ==
  LET p == DurationParts(u, 1) n == Len(p)
      bad == \E k \in 1..n : p[k] = <<"bad">>
      free == \E k \in 1..n : p[k] = <<"free">>
      odd == \E k \in 1..n : p[k][4]
      sum[k \in 0..n] == IF k = 0 THEN [w |-> <<>>, f |-> 0]
                         ELSE [w |-> BAdd(sum[k - 1].w, BMul(p[k][1], UnitSecs(p[k][3]))), f |-> sum[k - 1].f + p[k][2] * UnitSecs(p[k][3])]
      total == BNorm(BAdd(sum[n].w, BOfInt(sum[n].f \div 1000)))
  IN IF \E k \in 1..Len(u) : u[k] \in (9..13) \cup {32, 34, 39} \/ u[k] > 127 THEN Free
     ELSE IF u # <<>> /\ AllDigits(u) THEN Ok(DecBytes(u))
     ELSE IF u = <<>> THEN Free
     ELSE IF bad THEN No ELSE IF free THEN Free
     ELSE IF \E k \in 1..(n - 1) : UnitRank(p[k][3]) >= UnitRank(p[k + 1][3]) THEN No
     ELSE IF odd THEN May(total) ELSE Ok(total)
(* the notation of a duration in whole seconds (the program prints it with the largest units possible) *)
DurationText(n) ==             \* n: a small number
  LET part(v, c) == IF v = 0 THEN <<>> ELSE Utf8(ToDec(BOfInt(v))) \o <<c>>
  IN StrOf(part(n \div 86400, 100) \o part(Mod(n,86400) \div 3600, 104) \o part(Mod(n,3600) \div 60, 109) \o part(Mod(n,60), 115))

(* a lock given as text: <<"at", reading>> or <<"in", reading>> *)
ReadLock(s, year) ==
  LET u == LStrip(Utf8(s))
  IN IF u = <<>> THEN <<"at", Free>>
     ELSE IF u[1] = 43 THEN <<"in", ReadDuration(Tail(u))>>
     ELSE IF \E k \in 1..Len(u) : u[k] \in {43, 45} THEN <<"at", IF u[1] = 45 THEN Free ELSE No>>
     ELSE <<"at", ReadMoment(StripText(u), year)>>
=============================================================================
