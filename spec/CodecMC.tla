------------------------------- MODULE CodecMC -------------------------------
(* Laws of the notations that the specification prescribes, over families   *)
(* of values: encodings determine what they encode, texts read back as what *)
(* they were made of, dates follow one another, and so on. Each state is a  *)
(* case of the family.                                                      *)
EXTENDS CodecGen
CONSTANTS Family, From, To                    \* a family, and which of its cases
VARIABLE x
mvars == <<x, g0, stage>>

Apart(a, b) == ~IsPrefix(a, b) /\ ~IsPrefix(b, a)
Seed(n) == Blake(LE8(n))

--------------------------------------------------------------------------------
(* Length prefixes *)
Lengths == <<0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 4095, 16382, 16383, 16384, 16385, 65535, 65536, 2097150, 2097151, 2097152, 2097153, 16777216, 268435455, 536870910, 536870911>>
LengthsApart(c) ==
  LET a == Lengths[c[1]] b == Lengths[c[2]]
  IN \A f \in {"sia", "riv"} : a = b \/ Apart(LenPrefix(f, a), LenPrefix(f, b))
(* reading a length back as the chain does: the low bits of the first byte tell how many bytes there are *)
RivRead(p) ==
  LET n == BInt(BNorm(p))
      k == IF p[1] % 2 = 0 THEN 1 ELSE IF p[1] % 4 = 1 THEN 2 ELSE IF p[1] % 8 = 3 THEN 3 ELSE 4
  IN <<k, CASE k = 1 -> n \div 2 [] k = 2 -> n \div 4 [] k = 3 -> n \div 8 [] OTHER -> BInt(BNorm(<<p[1] \div 8 + 32 * (p[2] % 8), p[2] \div 8 + 32 * (p[3] % 8), p[3] \div 8 + 32 * (p[4] % 8), p[4] \div 8>>))>>
LengthsRead(c) == LET n == Lengths[c[1]] p == LenPrefix("riv", n) IN RivRead(p) = <<Len(p), n>>

--------------------------------------------------------------------------------
(* Values of one type: no encoding starts with that of another value *)
Types == <<"cur", "stake", "bin", "hash", "addr", "pk", "cond", "fulf", "in", "out", "net", "name", "bytes">>
ValueOf(ty, n) ==
  LET g == Seed(n) IN
  CASE ty = "cur" -> <<ty, IF n < 40 THEN DecOf(n) ELSE ToDec(Units(g))>>
    [] ty = "stake" -> <<ty, IF n < 40 THEN DecOf(n * 13) ELSE ToDec(Big(g, N(g, 10)))>>
    [] ty = "bin" -> <<ty, ToHex(Bytes(g, IF n < 40 THEN n % 3 ELSE N(g, 140)))>>
    [] ty = "bytes" -> <<ty, ToHex([k \in 1..(n % 130) |-> IF n < 200 THEN n % 3 ELSE g[1]]), "b">>
    [] ty = "hash" -> <<ty, ToHex(g)>>
    [] ty = "addr" -> <<ty, AnyAddr(g)>>
    [] ty = "pk" -> <<ty, AnyPub(g)>>
    [] ty = "cond" -> <<ty, Cond(g)>>
    [] ty = "fulf" -> <<ty, Fulf0(g, TRUE)>>
    [] ty = "in" -> <<ty, In(g, TRUE)>>
    [] ty = "out" -> <<ty, Out(g)>>
    [] ty = "net" -> <<ty, NetT(g)>>
    [] OTHER -> <<ty, NameT(g)>>
(* the same value: texts may name one address in different ways *)
Meaning(v) == IF v[1] = "net" THEN EncBotAddr(v[2]) ELSE IF v[1] \in {"cond", "fulf", "in", "out"} THEN ToString(v[2]) ELSE v[2]
ValuesApart(c) ==
  LET ty == Types[c[1]] a == ValueOf(ty, c[2]) b == ValueOf(ty, c[3])
  IN \A f \in {"sia", "riv"} :
       LET ea == Write(f, "add", a) eb == Write(f, "add", b)
       IN ea.r = "ok" /\ eb.r = "ok" /\ (Meaning(a) = Meaning(b) \/ Apart(ea.b, eb.b))

--------------------------------------------------------------------------------
(* Amounts *)
AmountSeq ==
  [k \in 1..30 |-> BOfInt(k - 1)] \o Cat([k \in 1..26 |-> LET t == Dec("1" \o StrOf(Noughts(k))) IN <<t, BNorm(BSub(t, <<1>>)), BNorm(BAdd(t, <<1>>)), BMul(t, 25)>>])
    \o Cat([k \in 1..12 |-> LET t == Pow2(8 * k) IN <<t, BNorm(BSub(t, <<1>>)), BNorm(BAdd(t, <<1>>))>>]) \o [k \in 1..40 |-> Units(Seed(k))]
TheAmounts == IF Family = "amounts" THEN AmountSeq ELSE <<>>
AmountReads(c) ==
  LET n == TheAmounts[c[1]] s == AmountText(n) IN
  /\ n = BNorm(n)
  /\ ReadText(s) = Ok(n) /\ ReadText(s \o " TFT") = Ok(n) /\ ReadText(" " \o s \o " tft ") = Ok(n)
  /\ ReadJson(<<"s", ToDec(n)>>) = Ok(n) /\ Dec(ToDec(n)) = n
  /\ ReadDecimal(s) = May(n)
  /\ Times(n, BOfInt(1000000000)) = Ok(n) /\ Times(n, <<>>) = Ok(<<>>)
AmountLaws(c) ==
  LET a == TheAmounts[c[1]] b == TheAmounts[c[2]] s == BNorm(BAdd(a, b)) IN
  /\ Plus(a, b) = Ok(s) /\ Plus(b, a) = Ok(s) /\ Minus(s, b) = Ok(a) /\ Minus(s, a) = Ok(b)
  /\ BLeq(a, s) /\ (BLeq(a, b) \/ BLt(b, a)) /\ ~(BLt(a, b) /\ BLt(b, a))
  /\ (Minus(a, b).r = "ok") = BLeq(b, a)
  /\ Times(a, b) = Times(b, a)
  /\ BTimes(a, BAdd(b, <<1>>)) = BNorm(BAdd(BTimes(a, b), a))
  /\ (BLt(a, b) => Len(ToDec(a)) <= Len(ToDec(b)))

--------------------------------------------------------------------------------
(* Dates and durations: c[1] is a number of days since 1970, or of seconds *)
YearOf(d) == CHOOSE y \in 1970..2110 : Days(y, 1, 1) <= d /\ d < Days(y + 1, 1, 1)
DateOf(d) == LET y == YearOf(d) m == CHOOSE m \in 1..12 : Days(y, m, 1) <= d /\ d < Days(y, m, 1) + MonthDays(y, m) IN <<y, m, d - Days(y, m, 1) + 1>>
TwoD(n) == LET s == DecOf(n) IN IF n < 10 THEN "0" \o s ELSE s
DateReads(c) ==
  LET d == DateOf(c[1])
      s == Seconds(d[1], d[2], d[3], 0)
      want == IF BLeq(Threshold, s) THEN Ok(s) ELSE No
      text == DecOf(d[1]) \o "/" \o TwoD(d[2]) \o "/" \o TwoD(d[3])
      back == TwoD(d[3]) \o "/" \o TwoD(d[2]) \o "/" \o DecOf(d[1])
      later == BAdd(s, BOfInt(86399))
  IN /\ Days(d[1], d[2], d[3]) = c[1] /\ Valid(d[1], d[2], d[3])
     /\ s = BMul(BOfInt(c[1]), 86400)
     /\ ReadMoment(Utf8(text), 2026) = want /\ ReadMoment(Utf8(back), 2026) = want
     /\ ReadMoment(Utf8(text \o " 23:59:59"), 2026) = (IF BLeq(Threshold, later) THEN Ok(later) ELSE No)
     /\ (d[1] = 2026 => ReadMoment(Utf8(DecOf(d[2]) \o "/" \o DecOf(d[3])), 2026) = want)
     /\ (d[1] \in 2000..2068 => ReadMoment(Utf8(TwoD(d[1] % 100) \o "/" \o TwoD(d[2]) \o "/" \o TwoD(d[3])), 2026) = want)
DurationReads(c) == LET n == c[1] IN (n # 0 => ReadDuration(Utf8(DurationText(n))) = Ok(BOfInt(n))) /\ ReadDuration(Utf8(DecOf(n))) = Ok(BOfInt(n))
ClockReads(c) ==          \* a second of the day
  LET n == c[1] h == n \div 3600 m == (n \div 60) % 60 s == n % 60
      h12 == IF h % 12 = 0 THEN 12 ELSE h % 12
      half == IF h < 12 THEN "am" ELSE "pm"
  IN /\ ReadClock(Utf8(TwoD(h) \o ":" \o TwoD(m) \o ":" \o TwoD(s))) = <<n>>
     /\ ReadClock(Utf8(DecOf(h12) \o half \o ":" \o TwoD(m) \o ":" \o TwoD(s))) = <<n>>
     /\ (s = 0 => ReadClock(Utf8(TwoD(h) \o ":" \o TwoD(m))) = <<n>>)

--------------------------------------------------------------------------------
(* Merkle trees, with a hash that has no collisions: different sequences have different roots, *)
(* also where a leaf imitates an inner node                                                   *)
Sym(b) == <<Len(b) % 256, Len(b) \div 256>> \o b
RECURSIVE Leaves(_)
LeafPool == <<<<1>>, <<>>, Sym(<<0, 1>>) \o Sym(<<0>>), <<1>> \o Sym(<<0, 1>>) \o Sym(<<0>>)>>
Leaves(n) == IF n = 0 THEN <<>> ELSE Leaves((n - 1) \div Len(LeafPool)) \o <<LeafPool[1 + ((n - 1) % Len(LeafPool))]>>
RootsApart(c) == c[1] = c[2] \/ MerkleRoot(Sym, Leaves(c[1])) # MerkleRoot(Sym, Leaves(c[2]))
(* the tree of a sequence is that of its two halves, the first of them full *)
RECURSIVE Pow2Below(_, _)
Pow2Below(p, n) == IF 2 * p >= n THEN p ELSE Pow2Below(2 * p, n)
RootsSplit(c) ==
  LET ds == [k \in 1..c[1] |-> LE(k, 2)] n == Len(ds) k == Pow2Below(1, n)
  IN n < 2 \/ MerkleRoot(Blake, ds) = Blake(<<1>> \o MerkleRoot(Blake, SubSeq(ds, 1, k)) \o MerkleRoot(Blake, SubSeq(ds, k + 1, n)))

--------------------------------------------------------------------------------
(* Addresses: no single character can be mistaken *)
HexChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
TheAddr(n) == IF n = 1 THEN NilAddr ELSE AddrText(1 + (n % 3), Seed(n))
AddrApart(c) ==           \* the address, the character, its replacement
  LET a == Utf8(TheAddr(c[1])) b == [a EXCEPT ![c[2]] = HexChars[c[3]]]
  IN /\ IsAddr(StrOf(a))
     /\ (a # b => ~IsAddr(StrOf(b)))
     /\ ~IsAddr(StrOf(SubSeq(a, 1, c[2] - 1) \o SubSeq(a, c[2] + 1, 78)))
     /\ (c[2] < 78 => LET t == [a EXCEPT ![c[2]] = a[c[2] + 1], ![c[2] + 1] = a[c[2]]] IN t = a \/ ~IsAddr(StrOf(t)))
(* the owners of a multisig in any order; other owners or another count make another address *)
OwnersApart(c) ==
  LET os == SubSeq(PoolAddr, 1, 4)
      p == <<os[1 + (c[1] % 4)], os[1 + (c[2] % 4)], os[1 + (c[3] % 4)]>>
      q == <<p[3], p[1], p[2]>>
  IN Cardinality(ToSet(p)) < 3 \/
     ( /\ MultiAddr(p, 2) = MultiAddr(q, 2) /\ MultiAddr(p, 2) # MultiAddr(p, 1) /\ MultiAddr(p, 2) # MultiAddr(SubSeq(p, 1, 2), 2)
       /\ \A k \in 1..5 : PoolAddr[k] \in ToSet(p) \/ MultiAddr(p, 2) # MultiAddr([p EXCEPT ![1] = PoolAddr[k]], 2) )

--------------------------------------------------------------------------------
(* Transactions: c[1] seeds a transaction, c[2] a neighbour *)
RECURSIVE NoSigs(_)
NoSigs(j) ==
  CASE j[1] = "o" -> O([k \in DOMAIN j[2] |-> IF k = "signature" THEN S("") ELSE IF k = "pairs" THEN A(<<>>) ELSE NoSigs(j[2][k])])
    [] j[1] = "a" -> A(Map(NoSigs, j[2]))
    [] OTHER -> j
(* all that is signed: the transaction without its proofs *)
Unproved(j) ==
  LET d == TData(j)
      bare(q) == A(Map(LAMBDA ci : IF Ver(j) = 0 THEN NoSigs(ci) ELSE O([parentid |-> At(ci, "parentid")]), q))
      own(k) == IF k \in {"mintfulfillment", "signature"} THEN <<"n">> ELSE IF k \in {"coininputs", "blockstakeinputs"} THEN bare(GetArr(d, k)) ELSE NoSigs(d[2][k])
  IN O([version |-> At(j, "version"), data |-> O([k \in DOMAIN d[2] |-> own(k)])])
TxGood(c) == LET j == TxJ(Seed(c[1])) IN IsExact(j) /\ Norm(Norm(j)) = Norm(j) /\ Same(j, j) /\ Trim(O([j[2] EXCEPT !.data = Trim(j)])) = Trim(j)
TxSigned(c) ==
  LET j == TxJ(Seed(c[1])) k == NoSigs(j) IN Ver(j) = 0 \/ SigInput(j, <<>>) = SigInput(k, <<>>)
TxApart(c) ==
  LET j == TxJ(Seed(c[1])) k == Mut(Seed(c[1] * 1000 + c[2]), j)
  IN (Done(j) /\ IsExact(k) /\ Done(k) /\ Ver(j) = Ver(k) /\ Len(RefundOf(j)) = Len(RefundOf(k))) =>
       /\ (Same(Modern(j), Modern(k)) \/ IdInput(j) # IdInput(k))
       /\ (Same(Modern(Unproved(j)), Modern(Unproved(k))) = (SigInput(j, <<>>) = SigInput(k, <<>>)))
       /\ (CoinOuts(j) # <<>> => CoinOutputIds(j)[1] # OutputId(j, "stake", 0))

--------------------------------------------------------------------------------
R == From..To
Cases0 ==
  CASE Family = "lengths" -> (1..Len(Lengths)) \X (1..Len(Lengths))
    [] Family = "values" -> {c \in (1..Len(Types)) \X R \X R : c[2] < c[3]}
    [] Family = "amounts" -> {c \in (1..Len(TheAmounts)) \X (1..Len(TheAmounts)) : c[1] <= c[2]}
    [] Family = "dates" -> {<<n>> : n \in R}
    [] Family = "durations" -> {<<n>> : n \in R} \cup {<<n * 3599>> : n \in R}
    [] Family = "clocks" -> {<<n>> : n \in R}
    [] Family = "roots" -> {c \in R \X R : c[1] <= c[2]}
    [] Family = "addresses" -> R \X (1..78) \X (1..16)
    [] Family = "owners" -> (0..3) \X (0..3) \X (0..3)
    [] Family = "transactions" -> {<<n, k>> : n \in R, k \in 0..9}
Share(c) == (FoldLeft(LAMBDA a, b : a + b, 0, c) \div 3) % 64        \* the cases are shared out among workers
MCInit == stage = 0 /\ x = <<>> /\ \E n \in 0..63 : g0 = <<n>>
MCNext == stage = 0 /\ stage' = 1 /\ g0' = <<>> /\ \E c \in Cases0 : Share(c) = g0[1] /\ x' = c
MCSpec == MCInit /\ [][MCNext]_mvars
Law == stage = 1 =>
  CASE Family = "lengths" -> LengthsApart(x) /\ LengthsRead(x)
    [] Family = "values" -> ValuesApart(x)
    [] Family = "amounts" -> (x[1] = x[2] => AmountReads(x)) /\ AmountLaws(x)
    [] Family = "dates" -> DateReads(x)
    [] Family = "durations" -> DurationReads(x)
    [] Family = "clocks" -> ClockReads(x)
    [] Family = "roots" -> RootsApart(x) /\ (x[1] = x[2] => RootsSplit(x))
    [] Family = "addresses" -> AddrApart(x)
    [] Family = "owners" -> OwnersApart(x)
    [] Family = "transactions" -> (x[2] = 0 => TxGood(x) /\ TxSigned(x)) /\ TxApart(x)
=============================================================================
