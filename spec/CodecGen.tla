------------------------------- MODULE CodecGen -------------------------------
(* Values, notations and transactions as programs for the real code. All    *)
(* that is drawn derives from a seed g (32 bytes) through a hash, so that a *)
(* program is a function of its seed.                                       *)
EXTENDS Encoding, TxJson, Times, Json, TLC
CONSTANTS Kind, Count                     \* what to generate, and how many cases per program
VARIABLE g0, stage

--------------------------------------------------------------------------------
(* Draws *)
Sub(g, k) == Blake(g \o <<k % 256, k \div 256>>)
N(g, n) == (g[1] + 256 * g[2] + 65536 * g[3]) % n               \* below n
Pick(g, q) == q[1 + N(Sub(g, 251), Len(q))]
Chance(g, p) == N(Sub(g, 252), 100) < p
Times0(g, n, f(_)) == [k \in 1..n |-> f(Sub(g, k))]             \* n values
Some(g, lo, hi, f(_)) == Times0(g, lo + N(Sub(g, 253), hi - lo + 1), f)
Byte(g) == g[5]
Bytes(g, n) == [k \in 1..n |-> Sub(g, (k - 1) \div 32)[1 + ((k - 1) % 32)]]
Big(g, n) == BNorm(Bytes(g, n))
Str1(q) == StrOf(q)
Join2(q) == LET f[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE f[k - 1] \o q[k] IN f[Len(q)]
DecOf(n) == ToDec(BOfInt(n))
TextLess(a, b) == BytesLess(Utf8(a), Utf8(b))
Pow2(k) == Zeros(k \div 8) \o <<2 ^ (k % 8)>>
(* around powers of two *)
Edge(g, ks) == LET p == Pow2(Pick(g, ks)) IN CASE N(g, 3) = 0 -> p [] N(g, 3) = 1 -> BNorm(BSub(p, <<1>>)) [] OTHER -> BNorm(BAdd(p, <<1>>))
(* JSON *)
S(x) == <<"s", x>>
I(x) == <<"i", ToDec(x)>>
A(x) == <<"a", x>>
O(x) == <<"o", x>>
NoFn == [x \in {} |-> 0]
When(c, r) == IF c THEN r ELSE NoFn

--------------------------------------------------------------------------------
(* Keys, hashes, addresses *)
Pool == [n \in 1..5 |-> EdPublic(Blake(<<n>>))]
Pub(n) == "ed25519:" \o ToHex(Pool[n])
PoolAddr == [n \in 1..5 |-> KeyAddr(Pool[n])]
AnyPub(g) == IF Chance(g, 80) THEN Pub(1 + N(g, 5)) ELSE "ed25519:" \o ToHex(Sub(g, 9))
HashT(g) == IF Chance(g, 4) THEN ToHex(Zeros(32)) ELSE ToHex(Sub(g, 8))
(* also addresses that differ in their last byte only *)
NearAddr(g) == AddrText(1, SubSeq(Hex(PoolAddr[1 + N(g, 5)]), 2, 32) \o <<N(Sub(g, 3), 3)>>)
OwnerAddr(g) == IF Chance(g, 72) THEN PoolAddr[1 + N(g, 5)] ELSE IF Chance(Sub(g, 11), 25) THEN NearAddr(g) ELSE AddrText(1, Sub(g, 7))
AnyAddr(g) == IF Chance(g, 50) THEN OwnerAddr(g) ELSE IF Chance(Sub(g, 2), 5) THEN NilAddr ELSE AddrText(N(Sub(g, 3), 3) + 1, Sub(g, 6))
SigT(g) == IF Chance(Sub(g, 12), 2) THEN ToHex(Zeros(64)) ELSE ToHex(Sub(g, 4) \o Sub(g, 5))

--------------------------------------------------------------------------------
(* Conditions, fulfillments, inputs and outputs, as the program writes them *)
LockEdges == <<<<>>, <<1>>, <<100>>, BOfInt(499999999), BOfInt(500000000), BOfInt(500000001), BOfInt(1550000000), Pow2(32), BNorm(BSub(Pow2(63), <<1>>)), BNorm(BSub(Pow2(64), <<1>>))>>
Lock64(g) == IF Chance(g, 60) THEN Pick(g, LockEdges) ELSE Big(g, 1 + N(g, 8))
Units(g) == CASE N(g, 5) = 0 -> Big(g, 1 + N(Sub(g, 1), 12))
              [] N(g, 5) = 1 -> BMul(BOfInt(1 + N(Sub(g, 1), 100000)), 1000000)
              [] N(g, 5) = 2 -> Edge(Sub(g, 1), <<8, 16, 32, 53, 56, 63, 64, 72, 96>>)
              [] N(g, 5) = 3 -> Dec(DecOf(N(Sub(g, 1), 1000)) \o "000000000")
              [] OTHER -> BOfInt(N(Sub(g, 1), 3))
Single(g) == O([type |-> I(<<1>>), data |-> O([unlockhash |-> S(AnyAddr(g))])])
Distinct(q) == LET f[k \in 0..Len(q)] == IF k = 0 THEN <<>> ELSE IF q[k] \in ToSet(f[k - 1]) THEN f[k - 1] ELSE Append(f[k - 1], q[k]) IN f[Len(q)]
MultiOf(g, lo) ==
  LET os == Distinct(Some(g, lo, 4, OwnerAddr))
  IN O([type |-> I(<<4>>), data |-> O([minimumsignaturecount |-> I(IF Chance(g, 10) THEN Big(g, 3) ELSE BOfInt(N(Sub(g, 31), 5))), unlockhashes |-> A(Map(S, os))])])
SwapOf(g) ==
  O([type |-> I(<<2>>), data |-> O([sender |-> S(OwnerAddr(Sub(g, 1))), receiver |-> S(OwnerAddr(Sub(g, 2))), hashedsecret |-> S(HashT(Sub(g, 3))),
     timelock |-> I(IF Chance(g, 70) THEN BOfInt(500000000 + N(Sub(g, 5), 1200000000)) ELSE BAdd(BOfInt(500000000), Big(Sub(g, 4), 7)))])])
Nil == O([type |-> I(<<>>)])
Plain(g) == IF N(g, 6) = 0 THEN Nil ELSE IF N(g, 6) < 4 THEN Single(Sub(g, 1)) ELSE MultiOf(Sub(g, 2), 0)
Cond(g) == IF N(g, 7) = 0 THEN SwapOf(Sub(g, 3)) ELSE IF N(g, 7) < 3 THEN O([type |-> I(<<3>>), data |-> O([locktime |-> I(Lock64(Sub(g, 1))), condition |-> Plain(Sub(g, 2))])])
           ELSE Plain(Sub(g, 4))
Unsigned == [publickey |-> S(NoKey), signature |-> S("")]
Pair(pk, g) == [publickey |-> S(pk), signature |-> S(SigT(g))]
FulfSingle(g, full) == O([type |-> I(<<1>>), data |-> O(IF full \/ Chance(g, 60) THEN Pair(AnyPub(g), g) ELSE Unsigned)])
FulfSwap(g, full) == O([type |-> I(<<2>>), data |-> O((IF full \/ Chance(g, 60) THEN Pair(AnyPub(g), g) ELSE Unsigned) @@ When(full \/ Chance(Sub(g, 1), 60), [secret |-> S(HashT(Sub(g, 2)))]))])
FulfMulti(g, full) == O([type |-> I(<<3>>), data |-> O([pairs |-> A(LET ps == Distinct(Some(g, IF full THEN 1 ELSE 0, 3, AnyPub)) IN [k \in 1..Len(ps) |-> O(Pair(ps[k], Sub(g, 40 + k)))])])])
Fulf0(g, full) == CASE N(g, 4) = 0 -> FulfSwap(Sub(g, 1), full) [] N(g, 4) = 1 -> FulfMulti(Sub(g, 1), full) [] OTHER -> FulfSingle(Sub(g, 1), full)
(* a condition that goes with a fulfillment *)
Wrapped(g, c) == IF Chance(g, 25) THEN O([type |-> I(<<3>>), data |-> O([locktime |-> I(Lock64(Sub(g, 1))), condition |-> c])]) ELSE c
ParentOf(g, f) ==
  CASE FType(f) = 1 -> Wrapped(g, IF Chance(Sub(g, 1), 40) /\ GetStr(FData(f), "signature") # ""
                                  THEN O([type |-> I(<<1>>), data |-> O([unlockhash |-> S(PkAddr(GetStr(FData(f), "publickey")))])])
                                  ELSE IF GetStr(FData(f), "signature") = "" /\ Chance(Sub(g, 2), 30) THEN Nil ELSE O([type |-> I(<<1>>), data |-> O([unlockhash |-> S(OwnerAddr(Sub(g, 3)))])]))
    [] FType(f) = 2 -> SwapOf(g)
    [] FType(f) = 3 -> Wrapped(g,
         IF Chance(Sub(g, 4), 40) THEN MultiOf(Sub(g, 3), 1)
         ELSE \* the signers are among the owners
           LET os == Distinct(Map(LAMBDA p : PkAddr(GetStr(p, "publickey")), GetArr(FData(f), "pairs")) \o Some(Sub(g, 5), 0, 2, OwnerAddr))
           IN IF os = <<>> THEN MultiOf(Sub(g, 3), 1)
              ELSE O([type |-> I(<<4>>), data |-> O([minimumsignaturecount |-> I(BOfInt(1 + N(Sub(g, 6), Len(os)))), unlockhashes |-> A(Map(S, os))])]))
InWith(g, f) == O([parentid |-> S(HashT(g)), fulfillment |-> f])
In(g, full) == InWith(g, Fulf0(Sub(g, 1), full))
Out(g) == O([value |-> S(ToDec(Units(Sub(g, 1)))), condition |-> Cond(Sub(g, 2))])
StakeOut(g) == O([value |-> S(ToDec(Big(Sub(g, 1), N(g, 6)))), condition |-> Cond(Sub(g, 2))])
Fee(g) == S(ToDec(Units(g)))
DataT(g) == IF Chance(g, 50) THEN "" ELSE ToBase64(Bytes(g, 1 + N(g, 83)))

(* names and network addresses of 3Bots *)
AlnumQ == <<97, 98, 122, 65, 90, 48, 57, 109>>
Letters == <<97, 98, 122, 65, 90>>
Text(g, q, n) == [k \in 1..n |-> q[1 + (Sub(g, k)[1] % Len(q))]]
Label(g, lo, hi) == LET n == lo + N(g, hi - lo + 1) IN Text(Sub(g, 1), Letters, 1) \o Text(Sub(g, 2), AlnumQ \o <<45>>, n - 2) \o Text(Sub(g, 3), AlnumQ, 1)
NameT(g) == LET p == Some(Sub(g, 1), 1, 3, LAMBDA x : Label(x, 5, 12)) IN IF Chance(g, 5) THEN StrOf(Label(g, 63, 63)) ELSE StrOf(FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE a \o <<46>> \o b, <<>>, p))
HexQ == <<48, 49, 57, 97, 98, 102>>
Group(g) == IF N(g, 3) = 0 THEN <<48>> ELSE Text(Sub(g, 1), <<49, 57, 97, 102>>, 1) \o Text(Sub(g, 2), HexQ, N(Sub(g, 3), 4))
SixGroups(g) == Times0(g, 8, LAMBDA x : IF N(x, 3) = 0 THEN <<48>> ELSE Text(Sub(x, 1), <<49, 57, 97, 102>>, 1) \o Text(Sub(x, 2), HexQ, N(Sub(x, 3), 4)))
Colons(q) == FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE a \o <<58>> \o b, <<>>, q)
SixT(g) ==
  LET q == SixGroups(g)
      zero == {k \in 1..8 : q[k] = <<48>>}
      n == N(Sub(g, 9), 5) + 2                       \* a run of zeros in the middle, shortened
      nz(x) == IF x = <<48>> THEN <<55>> ELSE x
      left == [k \in 1..(1 + N(Sub(g, 10), 7 - n)) |-> nz(q[k])]
      right == [k \in 1..(8 - n - Len(left)) |-> nz(q[9 - k])]
  IN IF Chance(g, 50) THEN StrOf(Colons([k \in 1..8 |-> nz(q[k])])) ELSE StrOf(Colons(left) \o <<58, 58>> \o Colons(right))
FourT(g) == StrOf(FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE a \o <<46>> \o b, <<>>, Times0(g, 4, LAMBDA x : Utf8(DecOf(IF Chance(x, 20) THEN 255 * N(x, 2) ELSE x[9])))))
HostT(g) == StrOf((CASE N(g, 3) = 0 -> Text(Sub(g, 1), Letters, 1) [] N(g, 3) = 1 -> Text(Sub(g, 1), AlnumQ, 1) \o Text(Sub(g, 2), Letters, 1) [] OTHER -> Label(Sub(g, 1), 3, 40))
                  \o <<46>> \o (IF Chance(Sub(g, 5), 30) THEN Text(Sub(g, 6), AlnumQ \o <<45>>, 2 + N(Sub(g, 7), 12)) \o <<46>> \o Text(Sub(g, 4), Letters, 2 + N(Sub(g, 4), 2))
                                ELSE Text(Sub(g, 4), Letters, 2 + N(Sub(g, 4), 5))))
NetT(g) == CASE N(g, 3) = 0 -> HostT(Sub(g, 1)) [] N(g, 3) = 1 -> FourT(Sub(g, 1)) [] OTHER -> SixT(Sub(g, 1))
Nets(g, lo, hi) == A(Map(S, Distinct(Some(g, lo, hi, NetT))))
Names(g, lo, hi) == A(Map(S, Distinct(Some(g, lo, hi, NameT))))
Id32(g) == IF Chance(g, 20) THEN BNorm(BSub(Pow2(32), <<1>>)) ELSE Big(g, N(g, 5))

--------------------------------------------------------------------------------
(* Transactions *)
(* mostly a few, now and then more, and once in a while as many as cross a boundary of lengths *)
More(g, n) == IF Chance(Sub(g, 201), 15) THEN n + 4 ELSE n
Ins(g, n, full) == A(Some(g, 0, More(g, n), LAMBDA x : In(x, full)))
OutSmall(g) == O([value |-> S(DecOf(1 + N(Sub(g, 1), 5000))), condition |-> IF N(g, 3) = 0 THEN Nil ELSE Single(Sub(g, 2))])
OutsOf(g) == A(IF Chance(Sub(g, 202), 1) THEN Some(g, 126, 131, OutSmall) ELSE Some(g, 0, More(g, 3), Out))
SigOr(g, full) == S(IF full \/ Chance(g, 50) THEN SigT(g) ELSE "")
Versions == <<"0", "1", "1", "128", "129", "144", "145", "146", "208", "209", "210">>
OldIn0(g, full) == O([parentid |-> S(HashT(g)), unlocker |-> O([type |-> I(<<1>>), condition |-> O([publickey |-> S(AnyPub(g))]), fulfillment |-> O([signature |-> SigOr(g, full)])])])
OldOut0(g) == O([value |-> Fee(g), unlockhash |-> S(OwnerAddr(g))])
NotEmpty(k, a) == When(a[2] # <<>>, k :> a)
TxData(v, g, full) ==
  LET s(k) == Sub(g, 100 + k)
      ins == Ins(s(1), 3, full)
      outs == OutsOf(s(2))
      fees == A(Some(s(3), 0, More(s(3), 2), Fee))
      dat == DataT(s(4))
      money == [txfee |-> Fee(s(5)), coininputs |-> ins] @@ When(Chance(s(6), 50), [refundcoinoutput |-> Out(s(7))])
  IN CASE v = "0" -> NotEmpty("coininputs", A(Some(s(1), 0, More(s(1), 3), LAMBDA x : OldIn0(x, full)))) @@ NotEmpty("coinoutputs", A(Some(s(2), 0, More(s(2), 3), OldOut0)))
                       @@ NotEmpty("blockstakeinputs", A(Some(s(8), 0, More(s(8), 2), LAMBDA x : OldIn0(x, full)))) @@ NotEmpty("blockstakeoutputs", A(Some(s(9), 0, More(s(9), 2), OldOut0)))
                       @@ [minerfees |-> A(Some(s(3), 1, 2, Fee))] @@ When(dat # "", [arbitrarydata |-> S(dat)])
       [] v = "1" -> NotEmpty("coininputs", ins) @@ NotEmpty("coinoutputs", outs) @@ NotEmpty("blockstakeinputs", Ins(s(8), 2, full))
                       @@ NotEmpty("blockstakeoutputs", A(Some(s(9), 0, More(s(9), 2), StakeOut))) @@ NotEmpty("minerfees", fees) @@ When(dat # "", [arbitrarydata |-> S(dat)])
       [] v \in {"128", "129"} -> [nonce |-> S(ToBase64(IF Chance(s(12), 25) THEN LET k == N(s(13), 9) IN SubSeq(Bytes(s(8), 8), 1, k) \o Zeros(8 - k) ELSE Bytes(s(8), 8))), mintfulfillment |-> (IF Chance(s(9), 40) THEN FulfSingle(s(9), full) ELSE FulfMulti(s(9), full)),
                                   minerfees |-> fees, arbitrarydata |-> S(dat)] @@ (IF v = "128" THEN [mintcondition |-> Cond(s(10))] ELSE [coinoutputs |-> outs])
       [] v = "144" -> [nrofmonths |-> I(BOfInt(N(s(8), 25))), identification |-> O([publickey |-> S(AnyPub(s(9))), signature |-> SigOr(s(9), full)])]
                       @@ NotEmpty("addresses", IF Chance(s(14), 25) THEN Nets(s(10), 6, 10) ELSE Nets(s(10), 0, 4)) @@ NotEmpty("names", IF Chance(s(15), 25) THEN Names(s(11), 4, 5) ELSE Names(s(11), 0, 3)) @@ money
       [] v = "145" -> [id |-> I(Id32(s(8))), nrofmonths |-> I(BOfInt(N(s(9), 25))), signature |-> SigOr(s(9), full)]
                       @@ (LET r == NotEmpty("add", Nets(s(10), 0, More(s(10), 2))) @@ NotEmpty("remove", Nets(s(11), 0, More(s(11), 2))) IN When(DOMAIN r # {}, [addresses |-> O(r)]))
                       @@ (LET r == NotEmpty("add", Names(s(12), 0, More(s(12), 1))) @@ NotEmpty("remove", Names(s(13), 0, More(s(13), 1))) IN When(DOMAIN r # {}, [names |-> O(r)])) @@ money
       [] v = "146" -> [sender |-> O([id |-> I(Id32(s(8))), signature |-> SigOr(s(9), full)]), receiver |-> O([id |-> I(Id32(s(10))), signature |-> SigOr(s(11), full)]),
                        names |-> Names(s(12), 0, More(s(12), 1))] @@ money
       [] v = "208" -> [address |-> S("0x" \o ToHex(Bytes(s(8), 20))), value |-> Fee(s(9))] @@ money
       [] v = "209" -> [address |-> S(OwnerAddr(s(8))), value |-> Fee(s(9)), txfee |-> Fee(s(5)), blockid |-> S("0x" \o ToHex(s(10))), txid |-> S("0x" \o ToHex(s(11)))]
       [] v = "210" -> LET pk == AnyPub(s(8)) IN
                       [pubkey |-> S(pk), tftaddress |-> S(PkAddr(pk)), erc20address |-> S("0x" \o ToHex(ERC20Of(PkAddr(pk)))), signature |-> SigOr(s(8), full), regfee |-> RegFee] @@ money
TxJ(g) == LET v == Pick(g, Versions) d == TxData(v, g, Chance(Sub(g, 99), 55)) IN O([version |-> <<"i", v>>] @@ When(DOMAIN d # {}, [data |-> O(d)]))

Extras(g) ==
  LET one(x) == CASE N(x, 6) = 0 -> <<"none">> [] N(x, 6) = 1 -> <<"pos", N(Sub(x, 1), 300)>> [] N(x, 6) = 2 -> <<"key", N(Sub(x, 1), 4), AnyPub(x)>>
                  [] N(x, 6) = 3 -> <<"secret", N(Sub(x, 1), 4), AnyPub(x), ToHex(Sub(x, 2))>> [] N(x, 6) = 4 -> <<"keyonly", AnyPub(x)>>
                  [] OTHER -> <<"role", Pick(x, <<"sender", "receiver", "registration">>)>>
  IN <<<<"none">>, <<"pos", 0>>>> \o Some(g, 1, 2, one)
KeyMap == [a \in {PoolAddr[n] : n \in 1..5} |-> Pub(CHOOSE n \in 1..5 : PoolAddr[n] = a)]
TxCase(g, j, exact) ==
  LET ps(k) == Map(LAMBDA ci : IF Has(ci, "fulfillment") /\ Chance(Sub(g, k), 85) THEN ParentOf(Blake(Utf8(ParentId(ci)) \o g), Fulf(ci)) ELSE <<"n">>, GetArr(TData(j), IF k = 1 THEN "coininputs" ELSE "blockstakeinputs"))
      mf == GetObj(TData(j), "mintfulfillment")
  IN [c |-> "tx", form |-> Pick(g, <<"dict", "dict", "str", "bytes">>), json |-> j, extra |-> IF exact THEN Extras(Sub(g, 2)) ELSE <<<<"none">>>>, ask |-> exact,
      parents |-> IF exact /\ Ver(j) # 0 THEN ps(1) ELSE <<>>, stakes |-> IF exact /\ Ver(j) # 0 THEN ps(2) ELSE <<>>,
      mint |-> IF exact /\ Ver(j) \in {128, 129} THEN ParentOf(Sub(g, 3), mf) ELSE <<"n">>,
      bots |-> <<IF Chance(Sub(g, 4), 75) THEN AnyPub(Sub(g, 4)) ELSE "", IF Chance(Sub(g, 5), 75) THEN AnyPub(Sub(g, 5)) ELSE "">>,
      keys |-> IF exact THEN KeyMap ELSE NoFn, other |-> Pub(5)]

--------------------------------------------------------------------------------
(* Corruption of JSON: somewhere in the value, one thing changes *)
Junk(g) == Pick(g, <<<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"i", "0">>, <<"i", "1">>, <<"i", "255">>, <<"i", "4294967296">>, <<"i", "18446744073709551616">>, <<"x", "-1">>, <<"x", "1.5">>,
                      <<"x", "1.0">>, <<"s", "">>, <<"s", "0">>, <<"s", "1">>, <<"s", "zz">>, <<"s", "-1">>, <<"s", " 1">>, <<"s", "0.5">>, <<"a", <<>>>>, <<"a", <<<<"i", "1">>>>>>, <<"a", <<<<"n">>>>>>,
                      Empty, <<"o", [type |-> <<"i", "7">>]>>, <<"o", [type |-> <<"s", "1">>]>>, <<"x", "1e3">>>>)
Ascii(g) == 33 + N(g, 94)
CutText(u, k) == SubSeq(u, 1, k - 1) \o SubSeq(u, k + 1, Len(u))
MutText(g, t) ==
  LET u == Utf8(t) n == Len(u) k == 1 + N(Sub(g, 1), n)
  IN IF n = 0 \/ \E x \in 1..n : u[x] \notin 32..126 THEN "x"
     ELSE CASE N(g, 8) = 0 -> StrOf(CutText(u, k))
            [] N(g, 8) = 1 -> StrOf(SubSeq(u, 1, k) \o SubSeq(u, k, n))
            [] N(g, 8) = 2 -> StrOf([u EXCEPT ![k] = Ascii(Sub(g, 2))])
            [] N(g, 8) = 3 -> StrOf([u EXCEPT ![k] = Pick(Sub(g, 2), <<48, 49, 97, 102, 65, 70, 103>>)])
            [] N(g, 8) = 4 -> StrOf(UpperText(u))
            [] N(g, 8) = 5 -> StrOf(SubSeq(u, 1, k))
            [] N(g, 8) = 6 -> Pick(Sub(g, 2), <<" ", "+", "-", "0", "0x", "00">>) \o t
            [] OTHER -> t \o Pick(Sub(g, 2), <<" ", "0", "00", "\n", "=", ".0">>)
MutInt(g, t) ==
  LET n == Dec(t) IN
  CASE N(g, 6) = 0 -> <<"i", ToDec(BNorm(BAdd(n, <<1>>)))>>
    [] N(g, 6) = 1 -> IF n = <<>> THEN <<"x", "-1">> ELSE <<"i", ToDec(BNorm(BSub(n, <<1>>)))>>
    [] N(g, 6) = 2 -> <<"i", ToDec(Edge(Sub(g, 1), <<8, 16, 32, 64>>))>>
    [] N(g, 6) = 3 -> <<"s", t>>
    [] N(g, 6) = 4 -> <<"x", t \o ".0">>
    [] OTHER -> <<"x", "-" \o t>>
RECURSIVE Mut(_, _)
Mut(g, j) ==
  LET deep == Chance(Sub(g, 1), 88) r == Sub(g, 2) IN
  CASE j[1] = "o" /\ DOMAIN j[2] # {} ->
         (LET ks == SortSeq(SetToSeq(DOMAIN j[2]), TextLess) k == Pick(r, ks)
          IN IF deep THEN O([j[2] EXCEPT ![k] = Mut(Sub(g, 3), @)])
             ELSE IF Chance(Sub(g, 4), 50) THEN O([x \in DOMAIN j[2] \ {k} |-> j[2][x]])
             ELSE IF Chance(Sub(g, 5), 30) THEN O(j[2] @@ [extra |-> Junk(Sub(g, 6))])
             ELSE Junk(Sub(g, 6)))
    [] j[1] = "a" /\ j[2] # <<>> ->
         (LET k == 1 + N(r, Len(j[2])) q == j[2]
          IN IF deep THEN A([q EXCEPT ![k] = Mut(Sub(g, 3), @)])
             ELSE CASE N(Sub(g, 4), 4) = 0 -> A(SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))
                    [] N(Sub(g, 4), 4) = 1 -> A(SubSeq(q, 1, k) \o SubSeq(q, k, Len(q)))
                    [] N(Sub(g, 4), 4) = 2 -> A([q EXCEPT ![k] = Junk(Sub(g, 6))])
                    [] OTHER -> Junk(Sub(g, 6)))
    [] j[1] = "s" -> IF deep THEN S(MutText(Sub(g, 3), j[2])) ELSE Junk(Sub(g, 6))
    [] j[1] = "i" -> IF deep THEN MutInt(Sub(g, 3), j[2]) ELSE Junk(Sub(g, 6))
    [] OTHER -> Junk(Sub(g, 6))
(* A part left out, or empty: every part of a transaction in turn *)
Without(o, k) == O([x \in DOMAIN o[2] \ {k} |-> o[2][x]])
Put(o, k, w) == O([o[2] EXCEPT ![k] = w])
Hollow(w) == CASE w[1] = "s" -> S("") [] w[1] = "a" -> A(<<>>) [] w[1] = "o" -> Empty [] OTHER -> I(<<>>)
Keys(o) == SortSeq(SetToSeq(DOMAIN o[2]), TextLess)
Gaps(o) == Cat(Map(LAMBDA k : <<Without(o, k), Put(o, k, <<"n">>), Put(o, k, Hollow(o[2][k]))>>, Keys(o)))
Inside(o) ==                \* one level further down, in objects and in the first element of arrays
  Cat(Map(LAMBDA k : LET w == o[2][k] IN
        IF w[1] = "o" THEN Map(LAMBDA y : Put(o, k, y), Gaps(w))
        ELSE IF w[1] = "a" /\ w[2] # <<>> /\ w[2][1][1] = "o" THEN Map(LAMBDA y : Put(o, k, A([w[2] EXCEPT ![1] = y])), Gaps(w[2][1]))
        ELSE <<>>, Keys(o)))
GapProgram(g) ==
  LET v == Pick(g, Versions)
      d == O(TxData(v, Sub(g, 1), TRUE))
      full == O([version |-> <<"i", v>>, data |-> d])
      js == Gaps(full) \o Map(LAMBDA y : Put(full, "data", y), Gaps(d) \o Inside(d))
  IN [k \in 1..Len(js) |-> [TxCase(Sub(g, 300 + k), js[k], FALSE) EXCEPT !.extra = Extras(Sub(g, 300 + k))]]
RawTexts == <<"", "{", "[]", "null", "1", "\"x\"", "{}", "[1]", "{\"version\":1,}", "{\"version\":1", "true", "{\"version\":1}}", "{version:1}", "nul", "{\"version\":1} x">>

--------------------------------------------------------------------------------
(* Encoders *)
IntEdges == <<8, 16, 24, 32, 63, 64>>
IntV(g) == CASE N(g, 4) = 0 -> <<"int", ToDec(Edge(Sub(g, 1), IntEdges))>> [] N(g, 4) = 1 -> <<"int", DecOf(N(Sub(g, 1), 300))>>
             [] N(g, 4) = 2 -> <<"int", ToDec(Big(Sub(g, 1), N(Sub(g, 2), 10)))>> [] OTHER -> <<"int", IF Chance(Sub(g, 1), 30) THEN "-" \o DecOf(1 + N(Sub(g, 2), 300)) ELSE DecOf(N(Sub(g, 2), 2))>>
RawV(g) == LET n == CASE N(g, 4) = 0 -> N(Sub(g, 1), 4) [] N(g, 4) = 1 -> Pick(Sub(g, 1), <<31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256>>) [] OTHER -> N(Sub(g, 1), 12)
           IN IF Chance(Sub(g, 4), 10) THEN <<"utf", ToHex(Cat(Times0(Sub(g, 5), n, LAMBDA x : Pick(x, <<<<97>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>>>))))>>
              ELSE IF Chance(Sub(g, 3), 70) THEN <<"bytes", ToHex(Bytes(g, n)), Pick(g, <<"b", "a">>)>> ELSE <<"text", StrOf(Text(g, <<97, 98, 32, 48>>, n)) \o Pick(g, <<"", "", "\n", "~">>)>>
ObjV(g) == CASE N(g, 12) = 0 -> <<"cur", ToDec(Units(Sub(g, 1)))>> [] N(g, 12) = 1 -> <<"stake", ToDec(Big(Sub(g, 1), N(Sub(g, 2), 9)))>>
             [] N(g, 12) = 2 -> <<"bin", ToHex(Bytes(Sub(g, 1), N(Sub(g, 2), 140)))>> [] N(g, 12) = 3 -> <<"hash", HashT(Sub(g, 1))>>
             [] N(g, 12) = 4 -> <<"addr", AnyAddr(Sub(g, 1))>> [] N(g, 12) = 5 -> <<"pk", AnyPub(Sub(g, 1))>> [] N(g, 12) = 6 -> <<"cond", Cond(Sub(g, 1))>>
             [] N(g, 12) = 7 -> <<"fulf", Fulf0(Sub(g, 1), TRUE)>> [] N(g, 12) = 8 -> <<"in", In(Sub(g, 1), TRUE)>> [] N(g, 12) = 9 -> <<"out", Out(Sub(g, 1))>>
             [] N(g, 12) = 10 -> <<"net", IF Chance(Sub(g, 2), 12) THEN "::ffff:" \o FourT(Sub(g, 1)) ELSE NetT(Sub(g, 1))>> [] OTHER -> <<"name", NameT(Sub(g, 1))>>
BadV(g) == Pick(g, <<<<"none">>, <<"thing">>, <<"float", "1.5">>, <<"dec", "1.5">>, <<"frac", "7/2">>, <<"int", "-1">>, <<"int", "18446744073709551616">>>>)
RECURSIVE AnyV(_, _)
AnyV(g, depth) ==
  LET n == N(g, 20) IN
  CASE n < 5 -> IntV(Sub(g, 1)) [] n = 5 \/ n = 6 -> <<"bool", Chance(Sub(g, 1), 50)>> [] n < 11 -> RawV(Sub(g, 1)) [] n < 15 -> ObjV(Sub(g, 1))
    [] n = 15 /\ Chance(Sub(g, 3), 40) -> BadV(Sub(g, 1))
    [] OTHER -> IF depth = 0 THEN IntV(Sub(g, 1))
                ELSE <<"list", [k \in 1..(IF Chance(Sub(g, 4), 6) THEN 127 + N(Sub(g, 4), 3) ELSE N(Sub(g, 5), 4)) |-> IF Chance(Sub(g, 4), 6) THEN <<"int", "7">> ELSE AnyV(Sub(g, 10 + k), depth - 1)],
                       Pick(g, <<"list", "tuple", "iter", "gen">>)>>
Lists(g) == <<"list", [k \in 1..N(g, 4) |-> AnyV(Sub(g, k), 1)], "list">>
EncCase(g) ==
  LET f == Pick(g, <<"sia", "riv">>)
      op == Pick(Sub(g, 1), SortSeq(SetToSeq(Ops(f)), TextLess))
      v == IF op = "all" THEN Lists(Sub(g, 2)) ELSE IF op \in {"int", "int8", "int16", "int24", "int32", "int64", "byte"} /\ Chance(Sub(g, 3), 80) THEN IntV(Sub(g, 2))
           ELSE IF op = "byte" THEN RawV(Sub(g, 2)) ELSE AnyV(Sub(g, 2), 2)
  IN [c |-> "enc", f |-> f, op |-> op, v |-> v]

LongCase(g) == [c |-> "long", f |-> Pick(g, <<"riv", "riv", "sia">>), n |-> Pick(Sub(g, 1), <<16383, 16384, 16385, 65536, 2097151, 2097152, 2097153>>), kind |-> Pick(Sub(g, 2), <<"bytes", "bytes", "text">>)]
HugeCase(n) == [c |-> "long", f |-> "riv", n |-> n, kind |-> "bytes"]
EncProgram(g) ==
  LET one(x) == IF Chance(x, 14) THEN [c |-> "alone", v |-> ObjV(Sub(x, 1))] ELSE IF Chance(Sub(x, 2), 2) THEN LongCase(x)
                ELSE IF Chance(Sub(x, 3), 3) THEN [c |-> "reset", f |-> Pick(x, <<"sia", "riv">>)]
                ELSE IF Chance(Sub(x, 4), 6) THEN [c |-> "data", f |-> Pick(x, <<"sia", "riv">>)] ELSE EncCase(Sub(x, 5))
  IN Times0(g, Count, one) \o <<[c |-> "data", f |-> "sia"], [c |-> "data", f |-> "riv"]>>
     \o (IF Chance(Sub(g, 1), 4) THEN <<HugeCase(536870912)>> ELSE IF Chance(Sub(g, 1), 6) THEN <<HugeCase(536870911)>> ELSE <<>>)

--------------------------------------------------------------------------------
(* Amounts *)
Digits(g, n) == StrOf([k \in 1..n |-> 48 + (Sub(g, k)[1] % 10)])
NumberT(g) ==
  LET w == CASE N(g, 4) = 0 -> DecOf(N(Sub(g, 1), 12)) [] N(g, 4) = 1 -> Digits(Sub(g, 1), 1 + N(Sub(g, 2), 20)) [] N(g, 4) = 2 -> ToDec(Big(Sub(g, 1), 1 + N(Sub(g, 2), 9))) [] OTHER -> DecOf(N(Sub(g, 1), 100000))
      d == CASE N(Sub(g, 3), 5) = 0 -> "" [] N(Sub(g, 3), 5) = 1 -> "." \o Digits(Sub(g, 4), 1 + N(Sub(g, 5), 9)) [] N(Sub(g, 3), 5) = 2 -> "." \o Digits(Sub(g, 4), 9)
             [] N(Sub(g, 3), 5) = 3 -> "." \o Digits(Sub(g, 4), 8 + N(Sub(g, 5), 3)) \o "0000" [] OTHER -> "." \o StrOf(Noughts(N(Sub(g, 4), 10))) \o Digits(Sub(g, 5), 1)
  IN w \o d
AmountForm(g) ==
  LET x == NumberT(Sub(g, 1)) IN
  CASE N(g, 10) < 4 -> x
    [] N(g, 10) = 4 -> x \o Pick(Sub(g, 2), <<" TFT", "TFT", " tft", "tFt ", "  TFT">>)
    [] N(g, 10) = 5 -> Pick(Sub(g, 2), <<" ", "\t", "0", "00", "+", "-", ".">>) \o x
    [] N(g, 10) = 6 -> x \o Pick(Sub(g, 2), <<" ", "\n", "e0", "e1", "E-1", "e9", "e-9", "e-10", "0", "TF", " TFTT", ".", "x", "e", " BTC", "_0", "e+2", "E3 TFT">>)
    [] N(g, 10) = 7 -> MutText(Sub(g, 2), x)
    [] N(g, 10) = 8 -> Pick(Sub(g, 2), <<"", " ", "TFT", " TFT", "0", "0 TFT", "-0", "-0.0", "-0.000000001", "0.0000000001", "0.0000000000", "NaN", "Infinity", "-Infinity", "sNaN", "inf", "1e-10", "10e-10", "1e1000", ".5", "5.", ".", "1 000", "1,5", "0x10", "1.5.2", "--1", "1-1">>)
    [] OTHER -> x \o "e" \o Pick(Sub(g, 2), <<"", "-", "+">>) \o DecOf(N(Sub(g, 3), 14))
UnitsWide(g) == IF Chance(g, 30) THEN Edge(Sub(g, 1), <<1, 8, 31, 32, 53, 63, 64, 80, 95, 96>>) ELSE Units(Sub(g, 2))
Cur(g) == <<"cur", ToDec(UnitsWide(g))>>
OperandF(g) == CASE N(g, 8) < 4 -> Cur(Sub(g, 1)) [] N(g, 8) = 4 -> <<"int", IF Chance(Sub(g, 1), 20) THEN "-1" ELSE DecOf(N(Sub(g, 2), 50))>>
                 [] N(g, 8) = 5 -> <<"str", AmountForm(Sub(g, 1))>> [] N(g, 8) = 6 -> <<"str", NumberT(Sub(g, 1))>>
                 [] OTHER -> <<"float", Pick(Sub(g, 1), <<"0.1", "0.5", "1.5", "2.0", "0.3", "1e-09", "1e-10", "123456.789", "-0.5", "nan", "inf", "0.000000001", "1e+16", "1e22">>)>>
(* two amounts that are related *)
CurNear(g, a) == LET n == Dec(a[2]) IN CASE N(g, 4) = 0 -> a [] N(g, 4) = 1 -> <<"cur", ToDec(BNorm(BAdd(n, <<1>>)))>>
                   [] N(g, 4) = 2 -> <<"cur", IF n = <<>> THEN "0" ELSE ToDec(BNorm(BSub(n, <<1>>)))>> [] OTHER -> <<"cur", ToDec(BMul(n, 10))>>
AmtCase(g) ==
  CASE N(g, 10) < 4 -> [c |-> "amt", op |-> "make", a |-> (LET x == Sub(g, 1) IN
             CASE N(x, 8) < 3 -> <<"str", AmountForm(Sub(x, 1))>> [] N(x, 8) = 3 -> <<"str", NumberT(Sub(x, 1))>> [] N(x, 8) = 4 -> <<"int", IF Chance(Sub(x, 1), 10) THEN "-3" ELSE ToDec(Big(Sub(x, 2), N(Sub(x, 3), 9)))>>
               [] N(x, 8) = 5 -> <<"json", IF Chance(Sub(x, 1), 60) THEN S(ToDec(UnitsWide(Sub(x, 2)))) ELSE IF Chance(Sub(x, 1), 50) THEN Junk(Sub(x, 2)) ELSE S(AmountForm(Sub(x, 2)))>>
               [] N(x, 8) = 6 -> IF Chance(Sub(x, 1), 50) THEN <<"dec", NumberT(Sub(x, 2))>> ELSE <<"float", Pick(Sub(x, 2), <<"0.1", "1.5">>)>> [] OTHER -> IF Chance(Sub(x, 1), 90) THEN Cur(Sub(x, 2)) ELSE <<"none">>)]
    [] N(g, 10) < 8 -> (LET a == Cur(Sub(g, 1)) IN
             [c |-> "amt", op |-> Pick(Sub(g, 2), <<"add", "sub", "sub", "mul">>), how |-> Pick(Sub(g, 3), <<"p", "r", "i">>), a |-> a, b |-> IF Chance(Sub(g, 4), 30) THEN CurNear(Sub(g, 5), a) ELSE OperandF(Sub(g, 5))])
    [] N(g, 10) = 8 -> (LET a == Cur(Sub(g, 1)) IN
             [c |-> "amt", op |-> Pick(Sub(g, 2), <<"lt", "le", "eq", "ne", "gt", "ge">>), how |-> "p", a |-> a, b |-> IF Chance(Sub(g, 4), 60) THEN CurNear(Sub(g, 5), a) ELSE OperandF(Sub(g, 5))])
    [] OTHER -> [c |-> "amt", op |-> "sum", list |-> Some(Sub(g, 1), 1, 5, LAMBDA x : ToDec(UnitsWide(x)))]

--------------------------------------------------------------------------------
(* Addresses *)
TextAddr(g) == IF Chance(g, 50) THEN AnyAddr(g) ELSE MutText(Sub(g, 1), AnyAddr(Sub(g, 2)))
Twice(g, c) ==              \* an owner more than once
  LET os == GetArr(CData(c), "unlockhashes")
  IN O([c[2] EXCEPT !["data"] = O([@[2] EXCEPT !["unlockhashes"] = A(os \o <<Pick(Sub(g, 61), os)>>)])])
(* an address of which a part starts with noughts, which a lenient reader does not look at *)
RECURSIVE NoughtFrom(_, _)
NoughtFrom(g, n) ==
  LET t == AddrText(1 + N(Sub(g, n), 3), Sub(Sub(g, n), 6))
      u == Utf8(t)
  IN IF n = 24 \/ u[67] = 48 \/ u[3] = 48 THEN t ELSE NoughtFrom(g, n + 1)
NoughtAddr(g) == NoughtFrom(g, 1)
(* characters that readers of numbers, and of hexadecimal notation, tolerate *)
NearChars(g) == Pick(g, <<<<" ", "+", "0", "f">>, <<"_", "-", "x", "A">>, <<"\n", ".", "1", "F">>, <<"g", "X", "\t", "9">>>>) \o <<" ", "+", "_">>
NearCase(g) ==
  LET k == Pick(g, <<"addr", "addr", "addr", "pk", "erc">>)
  IN [c |-> "near", kind |-> k, chars |-> NearChars(Sub(g, 2)),
      text |-> CASE k = "addr" -> (IF Chance(Sub(g, 3), 75) THEN NoughtAddr(Sub(g, 1)) ELSE AnyAddr(Sub(g, 1))) [] k = "pk" -> AnyPub(Sub(g, 1)) [] OTHER -> "0x" \o ToHex(Bytes(Sub(g, 1), 20))]
AddrCase(g) ==
  LET x == Sub(g, 1) IN
  IF Chance(Sub(g, 77), 5) THEN NearCase(x) ELSE
  CASE N(g, 12) < 3 -> [c |-> "addr", text |-> IF Chance(x, 85) THEN TextAddr(x) ELSE Pick(x, <<"", "0", StrOf(Noughts(78)), ToHex(<<4>> \o Sub(x, 1)) \o ToHex(SubSeq(Blake(<<4>> \o Sub(x, 1)), 1, 6)), ToHex(<<1>> \o Sub(x, 1)) \o ToHex(Zeros(6)),
                                            ToHex(<<0>> \o Sub(x, 1)) \o ToHex(Zeros(6)), AnyAddr(x) \o " ", StrOf([Utf8(AnyAddr(x)) EXCEPT ![3] = 32, ![4] = 32])>>)]
    [] N(g, 12) = 3 -> [c |-> "addrmake", type |-> N(x, 4), hash |-> ToHex(Sub(x, 1))]
    [] N(g, 12) = 4 -> [c |-> "addreq", a |-> AnyAddr(x), b |-> IF Chance(x, 50) THEN AnyAddr(x) ELSE AddrText(N(Sub(x, 1), 3) + 1, SubSeq(Hex(AnyAddr(x)), 2, 33))]
    [] N(g, 12) < 7 -> [c |-> "pk", text |-> IF Chance(x, 50) THEN AnyPub(Sub(x, 1)) ELSE IF Chance(Sub(x, 3), 70) THEN MutText(Sub(x, 1), AnyPub(Sub(x, 2))) ELSE Pick(x, <<"", "ed25519:", "ed25519", ToHex(Sub(x, 1)), "ed25519:" \o ToHex(SubSeq(Sub(x, 1), 1, 31)), "Ed25519:" \o ToHex(Sub(x, 1)), "secp256k1:" \o ToHex(Sub(x, 1)), "ed25519:" \o ToHex(Sub(x, 1)) \o ":",
                                     "ed25519:" \o ToHex(Zeros(32)), "ed25519:" \o ToHex(Zeros(31) \o <<1>>), "ed25519:" \o ToHex(<<1>> \o Zeros(31)), ":" \o ToHex(Zeros(32)), ":" \o ToHex(Sub(x, 1)), "ed25519:" \o ToHex(Sub(x, 1)) \o ":0">>)]
    [] N(g, 12) < 9 -> [c |-> "condaddr", json |-> IF Chance(Sub(x, 60), 85) THEN Cond(x) ELSE Twice(x, MultiOf(x, 1))]
    [] N(g, 12) = 9 -> (LET os == Distinct(Some(x, 1, 5, OwnerAddr)) IN [c |-> "multi", owners |-> os, n |-> IF Chance(Sub(x, 1), 10) THEN N(Sub(x, 2), 70000) ELSE 1 + N(Sub(x, 2), Len(os))])
    [] N(g, 12) = 10 -> [c |-> "erc", addr |-> AnyAddr(x)]
    [] OTHER -> [c |-> "erctext", json |-> Chance(x, 50), text |-> LET v == "0x" \o ToHex(Bytes(Sub(x, 1), 20)) IN IF Chance(Sub(x, 2), 50) THEN v ELSE MutText(Sub(x, 3), v)]

(* names and network addresses of 3Bots *)
LongName(g) == LET n == 61 + N(g, 5) IN StrOf(IF Chance(Sub(g, 1), 50) THEN Label(Sub(g, 2), n, n) ELSE LET k == 5 + N(Sub(g, 3), 5) IN Label(Sub(g, 2), n - 1 - k, n - 1 - k) \o <<46>> \o Label(Sub(g, 4), k, k))
LongHost(g) == LET n == 60 + N(g, 5) k == 2 + N(Sub(g, 1), 5) IN StrOf(IF Chance(Sub(g, 3), 50) THEN Label(Sub(g, 2), n - 1 - k, n - 1 - k) \o <<46>> \o Text(Sub(g, 4), Letters, k)
                                                                   ELSE Label(Sub(g, 2), 30, 30) \o <<46>> \o Label(Sub(g, 5), n - 34, n - 34) \o <<46>> \o Text(Sub(g, 4), Letters, 2))
BotChars(g) == Pick(g, <<<<"-", ".", "A">>, <<"_", "0", "a">>, <<" ", "-", "9">>, <<".", ":", "b">>, <<"\n", "+", "Z">>, <<"~", "/", "1">>>>)
BotCase(g) ==
  LET x == Sub(g, 1) IN
  IF Chance(g, 50) THEN [c |-> "near", kind |-> "name", chars |-> BotChars(Sub(g, 2)), text |-> IF Chance(Sub(g, 3), 25) THEN LongName(x) ELSE NameT(x)]
  ELSE [c |-> "near", kind |-> "net", chars |-> BotChars(Sub(g, 2)), text |-> IF Chance(Sub(g, 3), 15) THEN LongHost(x) ELSE NetT(x)]

--------------------------------------------------------------------------------
(* Locks and durations *)
Two(n) == IF n < 10 THEN "0" \o DecOf(n) ELSE DecOf(n)
Loose(g, n) == IF Chance(g, 70) THEN Two(n) ELSE DecOf(n)
DateT(g) ==
  LET y == CASE N(g, 4) = 0 -> 1970 + N(Sub(g, 1), 20) [] N(g, 4) = 1 -> 2016 + N(Sub(g, 1), 20) [] N(g, 4) = 2 -> Pick(Sub(g, 1), <<1985, 1986, 2000, 2020, 2024, 2038, 2100, 2400>>) [] OTHER -> 1970 + N(Sub(g, 1), 1000)
      m == IF Chance(Sub(g, 2), 95) THEN 1 + N(Sub(g, 3), 12) ELSE N(Sub(g, 3), 16)
      d == IF Chance(Sub(g, 4), 60) THEN 1 + N(Sub(g, 5), 28) ELSE 27 + N(Sub(g, 5), 6)
      mm == Loose(Sub(g, 6), m) dd == Loose(Sub(g, 7), d)
  IN CASE N(Sub(g, 8), 6) < 3 -> DecOf(y) \o "/" \o mm \o "/" \o dd
       [] N(Sub(g, 8), 6) = 3 -> dd \o "/" \o mm \o "/" \o DecOf(y)
       [] N(Sub(g, 8), 6) = 4 -> Two(y % 100) \o "/" \o mm \o "/" \o dd
       [] OTHER -> mm \o "/" \o dd
ClockT(g) ==
  LET h == N(Sub(g, 1), 24) m == N(Sub(g, 2), 60) s1 == IF Chance(g, 50) THEN "" ELSE ":" \o Two(N(Sub(g, 3), 60))
  IN IF Chance(Sub(g, 4), 60) THEN Two(h) \o ":" \o Two(m) \o s1
     ELSE IF Chance(Sub(g, 5), 80) THEN Two(1 + N(Sub(g, 6), 12)) \o Pick(Sub(g, 7), <<"am", "pm", "AM", "PM">>) \o ":" \o Two(m) \o s1
     ELSE Pick(Sub(g, 7), <<"24:00", "12:60", "7:5", "13pm:10", "0am:10", "12", "1:2:3:4", ":30", "10:30am", "ab:cd">>)
MomentT(g) == IF Chance(g, 45) THEN DateT(Sub(g, 1)) ELSE DateT(Sub(g, 1)) \o " " \o ClockT(Sub(g, 2))
DurT(g) ==
  LET n == 1 + N(g, 3)
      part(u, x) == IF Chance(x, 55) THEN DecOf(N(Sub(x, 1), Pick(Sub(x, 2), <<3, 30, 100, 4000>>))) \o (IF Chance(Sub(x, 3), 12) THEN "." \o Digits(Sub(x, 4), 1 + N(Sub(x, 5), 3)) ELSE "") \o u ELSE ""
      v == part("d", Sub(g, 1)) \o part("h", Sub(g, 2)) \o part("m", Sub(g, 3)) \o part("s", Sub(g, 4))
  IN CASE N(Sub(g, 5), 10) = 0 -> Pick(Sub(g, 6), <<"1s1m", "1h2h", "1w", "5 m", "1.2.3s", "h", ".s", "1.s", ".5m", "-1s", "+1s", "1m30", "1H", "99999999", "0", "00", "1e3s", "1d1d", "0.0005s", "-5", "m5", "3600">>)
       [] N(Sub(g, 5), 10) = 1 -> MutText(Sub(g, 6), IF v = "" THEN "1h" ELSE v)
       [] N(Sub(g, 5), 10) = 2 -> DecOf(N(Sub(g, 6), 200000))
       [] OTHER -> IF v = "" THEN "90m" ELSE v
TimeEdges == <<BOfInt(499999999), BOfInt(500000000), BOfInt(500000001), BOfInt(1550000000), BNorm(BSub(Pow2(31), <<1>>)), Pow2(31), Pow2(32)>>
LockCase(g) ==
  LET now == IF Chance(g, 80) THEN ToDec(BOfInt(500000000 + N(Sub(g, 1), 1500000000))) ELSE ""
      base == IF now = "" THEN <<>> ELSE Dec(now)
      k == N(Sub(g, 2), 12)
      form == CASE k < 3 -> "int" [] k < 9 -> "text" [] k = 9 -> "td" [] k = 10 -> "dt" [] OTHER -> Pick(Sub(g, 3), <<"none", "lock", "lock">>)
      arg == CASE form = "int" -> (IF Chance(Sub(g, 4), 8) THEN "-1" ELSE ToDec(Lock64(Sub(g, 5))))
               [] form = "text" -> (IF k < 6 THEN MomentT(Sub(g, 5)) ELSE IF k = 6 THEN MutText(Sub(g, 4), MomentT(Sub(g, 5))) ELSE "+" \o DurT(Sub(g, 5)))
               [] form = "td" -> DecOf(N(Sub(g, 4), Pick(Sub(g, 5), <<2, 100, 100000, 16000000>>)))
               [] form = "dt" -> ToDec(Pick(Sub(g, 4), TimeEdges))
               [] form = "lock" -> ToDec(Lock64(Sub(g, 5)))
               [] OTHER -> ""
      est == CASE form \in {"int", "lock", "dt"} -> (IF IsDec(arg) THEN Dec(arg) ELSE <<>>)
               [] form = "none" -> <<>>
               [] form = "td" -> BAdd(base, Dec(arg))
               [] OTHER -> (LET r == ReadLock(arg, 2026) IN IF r[2].r \notin {"ok", "may"} THEN <<1>> ELSE IF r[1] = "in" THEN BAdd(base, r[2].n) ELSE r[2].n)
      v == BNorm(est)
      less == IF v = <<>> THEN v ELSE BNorm(BSub(v, <<1>>))
      hs == IF BLeq(v, BOfInt(2000000000)) THEN <<BInt(less), BInt(v), BInt(v) + 1>> ELSE <<0, 5, 2000000000>>
      ts == <<ToDec(less), ToDec(v), ToDec(BNorm(BAdd(v, <<1>>)))>>
  IN [c |-> "lock", form |-> form, arg |-> arg, now |-> now, naive |-> Chance(Sub(g, 6), 50), zone |-> IF Chance(Sub(g, 7), 50) THEN 0 ELSE N(Sub(g, 8), 1559) - 719,
      at |-> <<<<hs[1], ts[3]>>, <<hs[2], ts[1]>>, <<hs[3], ts[1]>>, <<hs[1], ts[2]>>, <<0, "0">>, <<2000000000, "0">>, <<0, "18446744073709551615">>>>]
TimeCase(g) == IF Chance(g, 70) THEN LockCase(Sub(g, 1)) ELSE [c |-> "dur", text |-> DurT(Sub(g, 1))]

--------------------------------------------------------------------------------
(* Merkle trees *)
MerkleProgram(g) ==
  LET h == Pick(g, <<"blake", "blake", "sha">>)
      n == 1 + N(Sub(g, 1), Count)
  IN <<[c |-> "tree", h |-> h]>>
     \o [k \in 1..n |-> [c |-> "push", leaf |-> (LET x == Sub(g, 10 + k) IN ToHex(Bytes(x, Pick(x, <<0, 1, 8, 31, 32, 33, 64, 65>>)))), look |-> k = n \/ Chance(Sub(g, 10 + k), 70)]]
     \o (IF Chance(Sub(g, 2), 20) THEN <<[c |-> "grow", h |-> h, n |-> 130, salt |-> N(Sub(g, 3), 10000), at |-> <<63, 64, 65, 100, 127, 128, 129, 130>>]>> ELSE <<>>)

--------------------------------------------------------------------------------
Cases(g) ==
  CASE Kind = "Enc" -> EncProgram(g)
    [] Kind = "Amt" -> Times0(g, Count, AmtCase)
    [] Kind = "Addr" -> Times0(g, Count, AddrCase)
    [] Kind = "Names" -> Times0(g, Count, BotCase)
    [] Kind = "Lock" -> Times0(g, Count, TimeCase)
    [] Kind = "Merkle" -> MerkleProgram(g)
    [] Kind = "Tx" -> Times0(g, Count, LAMBDA x : TxCase(Sub(x, 2), TxJ(Sub(x, 1)), TRUE))
    [] Kind = "Gap" -> GapProgram(g)
    [] Kind = "Mut" -> Times0(g, Count, LAMBDA x : IF Chance(Sub(x, 3), 3) THEN [c |-> "txtext", raw |-> Pick(Sub(x, 4), RawTexts), bytes |-> Chance(Sub(x, 5), 50)]
                                       ELSE LET j == Mut(Sub(x, 2), TxJ(Sub(x, 1))) IN TxCase(Sub(x, 4), IF Chance(Sub(x, 5), 15) THEN Mut(Sub(x, 6), j) ELSE j, FALSE))
Init == stage = 0 /\ g0 = <<>>
Draw == stage = 0 /\ stage' = 1 /\ \E x \in {RandomElement(0..2000000000)} : g0' = Blake(LE8(x))
Make == stage = 1 /\ stage' = 2 /\ g0' = g0 /\ PrintT("PROGRAM " \o ToJson([cases |-> Cases(g0)]))
Next == Draw \/ Make
Spec == Init /\ [][Next]_<<g0, stage>>
=============================================================================
