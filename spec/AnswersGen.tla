------------------------------- MODULE AnswersGen -------------------------------
(* Queries and the answers that an explorer gives to them, right ones and   *)
(* corrupted ones, as programs for the real client.                         *)
EXTENDS CodecGen

Nothing(g, k) == CASE N(g, 3) = 0 -> NoFn [] N(g, 3) = 1 -> (k :> <<"n">>) [] OTHER -> (k :> A(<<>>))
ListAs(g, k, q) == IF q = <<>> THEN Nothing(g, k) ELSE k :> A(q)
Hashes(g, n) == [k \in 1..n |-> S(ToHex(Sub(g, k)))]
HeightJ(g) == I(IF Chance(g, 15) THEN Pick(Sub(g, 1), <<<<>>, <<1>>, Pow2(31), BNorm(BSub(Pow2(32), <<1>>))>>) ELSE BOfInt(N(Sub(g, 2), 2000000)))
Rest(g) == [hexinfo |-> <<"n">>, coinoutputunlockhashes |-> A(<<S("x")>>)]            \* parts that mean nothing here
OutOf(g) == O([value |-> Fee(Sub(g, 1)), condition |-> Cond(Sub(g, 2))])
StakeOf(g) == O([value |-> S(DecOf(1 + N(Sub(g, 1), 5000))), condition |-> Plain(Sub(g, 2))])
Etx(g, raw) ==
  LET s(k) == Sub(g, k)
      open == Chance(s(1), 25)
      ins == [k \in 1..Len(CoinIns(raw)) |-> OutOf(Sub(s(2), k))]
      sins == [k \in 1..Len(StakeIns(raw)) |-> StakeOf(Sub(s(3), k))]
  IN O([id |-> S(ToHex(s(4))), rawtransaction |-> raw, parent |-> S(ToHex(s(5)))]
       @@ (IF open THEN [unconfirmed |-> <<"b", TRUE>>] @@ When(Chance(s(6), 60), [height |-> I(<<>>)])
           ELSE [height |-> HeightJ(s(7))] @@ When(Chance(s(6), 60), [unconfirmed |-> <<"b", FALSE>>]))
       @@ ListAs(s(8), "coininputoutputs", ins) @@ ListAs(s(9), "blockstakeinputoutputs", sins)
       @@ ListAs(s(10), "coinoutputids", Hashes(s(11), Len(CoinOuts(raw)))) @@ ListAs(s(12), "blockstakeoutputids", Hashes(s(13), Len(StakeOuts(raw))))
       @@ When(Chance(s(14), 30), Rest(g)))
Tx0(g) == Etx(Sub(g, 1), TxJ(Sub(g, 2)))
Payout(g) == O([value |-> Fee(Sub(g, 1)), unlockhash |-> S(AnyAddr(Sub(g, 2)))])
BlockJ(g) ==
  LET s(k) == Sub(g, k) n == N(s(1), 3)
  IN O([blockid |-> S(ToHex(s(2))), height |-> HeightJ(s(3)), transactions |-> A(Times0(s(4), N(s(5), 3), Tx0)),
        rawblock |-> O([parentid |-> S(ToHex(s(6))), timestamp |-> I(BOfInt(1500000000 + N(s(7), 400000000))), pobsindexes |-> O([blockheight |-> I(<<1>>)])]
                       @@ ListAs(s(8), "minerpayouts", Times0(s(9), n, Payout))), difficulty |-> S("1")]
       @@ ListAs(s(10), "minerpayoutids", Hashes(s(11), n)))
HashTypes == <<"transactionid", "blockid", "unlockhash", "coinoutputid", "blockstakeoutputid", "", "block">>
Hashed(kind, r) == O([hashtype |-> S(kind)] @@ r)
(* the parts which an explorer leaves empty in an answer of another kind *)
Blank == O([id |-> S(ToHex(Zeros(32))), height |-> I(<<>>)])
ErcInfo(g) == LET a == AnyAddr(g) IN O([tftaddress |-> S(a), erc20address |-> S("0x" \o ToHex(Bytes(g, 20))), confirmations |-> I(BOfInt(N(g, 5000)))])
Spends(g, raw, id) ==                        \* a transaction that spends the output
  LET d == TData(raw) IN
  IF CoinIns(raw) = <<>> \/ Ver(raw) = 0 THEN raw
  ELSE O([raw[2] EXCEPT !["data"] = O([d[2] EXCEPT !["coininputs"] = A([k \in 1..Len(CoinIns(raw)) |-> IF k = 1 THEN O([CoinIns(raw)[1][2] EXCEPT !["parentid"] = S(id)]) ELSE CoinIns(raw)[k]])])])

(* corruption: a part left out somewhere *)
RECURSIVE Drop(_, _)
Drop(g, j) ==
  IF j[1] = "o" /\ DOMAIN j[2] # {} THEN
    (LET ks == SortSeq(SetToSeq(DOMAIN j[2]), TextLess) k == Pick(Sub(g, 1), ks)
     IN IF j[2][k][1] \in {"o", "a"} /\ Chance(Sub(g, 2), 60) THEN O([j[2] EXCEPT ![k] = Drop(Sub(g, 3), @)]) ELSE O([x \in DOMAIN j[2] \ {k} |-> j[2][x]]))
  ELSE IF j[1] = "a" /\ j[2] # <<>> THEN (LET k == 1 + N(Sub(g, 1), Len(j[2])) IN A([j[2] EXCEPT ![k] = Drop(Sub(g, 3), @)]))
  ELSE <<"n">>
(* another value in one place *)
Corrupt(g, j) ==
  CASE N(g, 10) < 5 -> j
    [] N(g, 10) = 5 -> Drop(Sub(g, 1), j)
    [] N(g, 10) = 6 /\ Has(j, "hashtype") -> O([j[2] EXCEPT !["hashtype"] = S(Pick(Sub(g, 1), HashTypes))])
    [] N(g, 10) = 9 -> Mut(Sub(g, 1), Mut(Sub(g, 2), j))
    [] OTHER -> Mut(Sub(g, 1), j)
Ask(kind, arg, form, answers) == [kind |-> kind, arg |-> arg, form |-> form, answers |-> answers]
IdForm(g) == Pick(g, <<"str", "str", "hash", "bytes", "bytearray">>)
Asked(g, id) == IF Chance(g, 8) THEN ToHex(Sub(g, 1)) ELSE id            \* now and then for something else
QueryOf(g) ==
  LET s(k) == Sub(g, 200 + k) n == N(s(0), 14)
      id(x) == Asked(s(1), x)
      one(kind, arg, form, endpoint, j) == Ask(kind, arg, form, <<<<endpoint, Corrupt(s(2), j)>>>>)
  IN CASE n < 3 -> (LET t == Tx0(s(3)) i == id(GetStr(t, "id"))
                    IN one("tx", i, IdForm(s(4)), "/explorer/hashes/" \o i, Hashed("transactionid", [transaction |-> t] @@ When(Chance(s(5), 50), [block |-> Blank, transactions |-> <<"n">>]))))
       [] n \in {3, 4} -> (LET b == BlockJ(s(3)) i == id(GetStr(b, "blockid"))
                     IN one("block", i, IdForm(s(4)), "/explorer/hashes/" \o i, Hashed("blockid", [block |-> b] @@ When(Chance(s(5), 50), [transaction |-> Blank]))))
       [] n = 5 -> (LET b == BlockJ(s(3)) h == Get(b, "height")[2]
                    IN one("at", IF Chance(s(4), 8) THEN "7" ELSE h, "", "/explorer/blocks/" \o (IF Chance(s(4), 8) THEN "7" ELSE h), O([block |-> b])))
       [] n \in {6, 7} ->
            (LET coin == Chance(s(3), 70)
                 ids == IF coin THEN "coinoutputids" ELSE "blockstakeoutputids"
                 mk(k) == LET t == Tx0(Sub(s(4), k)) IN IF coin \/ Ver(GetObj(t, "rawtransaction")) \in {0, 1} THEN t ELSE Etx(Sub(s(5), k), O([version |-> <<"i", "1">>, data |-> O(TxData("1", Sub(s(6), k), TRUE))]))
                 c == IF GetArr(mk(1), ids) # <<>> THEN mk(1) ELSE mk(2)
                 q == GetArr(c, ids)
                 i == id(IF q = <<>> THEN ToHex(s(7)) ELSE Pick(s(8), q)[2])
                 sp == Etx(s(9), Spends(s(10), TxJ(s(10)), i))
             IN one(IF coin THEN "coin" ELSE "stake", i, IdForm(s(11)), "/explorer/hashes/" \o i,
                    Hashed(IF coin THEN "coinoutputid" ELSE "blockstakeoutputid",
                           [transactions |-> A(CASE N(s(12), 8) < 3 -> <<c>> [] N(s(12), 8) < 5 -> <<c, sp>> [] N(s(12), 8) < 7 -> <<sp, c>> [] OTHER -> <<sp, c, sp>>)])))
       [] n \in {8, 9, 10} ->
            (LET nobody == Chance(s(3), 8) os == Distinct(Some(s(4), 2, 3, OwnerAddr)) many == Chance(s(5), 30) /\ Len(os) > 1
                 a == IF nobody THEN NilAddr ELSE IF many THEN MultiAddr(os, 1) ELSE AnyAddr(s(6))
                 t == Times0(s(7), N(s(8), 5), Tx0)
                 same == IF t # <<>> /\ Chance(s(14), 25) THEN [k \in 1..Len(t) |-> IF Has(t[k], "height") /\ Has(t[1], "height") THEN O([t[k][2] EXCEPT !["height"] = Get(t[1], "height")]) ELSE t[k]] ELSE t
             IN one("addr", a, IF nobody THEN "none" ELSE IF many THEN Pick(s(9), <<"tuple", "text">>) ELSE Pick(s(9), <<"text", "object">>), "/explorer/hashes/" \o a,
                    Hashed("unlockhash", [transactions |-> A(same)]
                       @@ ListAs(s(10), "multisigaddresses", Map(LAMBDA x : S(AddrText(3, x)), [k \in 1..N(s(11), 3) |-> Sub(s(11), k)]))
                       @@ When(Chance(s(12), 30), [erc20info |-> ErcInfo(s(13))])))
               @@ (IF many THEN [owners |-> os] ELSE [owners |-> <<>>]))
       [] n = 11 -> (LET b == BlockJ(s(3)) i == GetStr(b, "blockid") e == O([blockid |-> S(i), height |-> Get(b, "height")])
                     IN Ask("info", i, "", IF Chance(s(4), 30) THEN <<<<"/explorer", Corrupt(s(5), e)>>, <<"/explorer/hashes/" \o i, Hashed("blockid", [block |-> b])>>>>
                                           ELSE <<<<"/explorer", e>>, <<"/explorer/hashes/" \o i, Corrupt(s(6), Hashed("blockid", [block |-> IF Chance(s(7), 10) THEN BlockJ(s(8)) ELSE b]))>>>>))
       [] n = 12 -> (IF Chance(s(3), 50)
                     THEN (LET h == Pick(s(4), <<"", "0", "12", "99999">>)
                           IN one("mint", h, "", "/explorer/mintcondition" \o (IF h = "" THEN "" ELSE "/" \o h), O([mintcondition |-> Cond(s(5))])))
                     ELSE (LET a == AddrText(1, s(4)) IN one("erc", a, Pick(s(5), <<"text", "object">>), "/explorer/hashes/" \o a,
                              Hashed("unlockhash", [transactions |-> A(<<>>)] @@ When(Chance(s(6), 85), [erc20info |-> ErcInfo(s(7))])))))
       [] OTHER -> (LET pk == AnyPub(s(3)) nm == NameT(s(4)) num == 1 + N(s(5), 1000) w == N(s(6), 3)
                        j == O([record |-> O([id |-> I(BOfInt(num)), publickey |-> S(pk), expiration |-> I(BOfInt(1500000000 + N(s(7), 400000000)))]
                                @@ (LET q == Names(s(8), 0, 4) IN ListAs(s(9), "names", q[2])) @@ (LET q == Nets(s(10), 0, 4) IN ListAs(s(11), "addresses", q[2])))])
                    IN one("bot", CASE w = 0 -> DecOf(num) [] w = 1 -> pk [] OTHER -> nm, CASE w = 0 -> "int" [] w = 1 -> Pick(s(12), <<"text", "pk">>) [] OTHER -> Pick(s(12), <<"text", "name">>),
                           IF w = 2 THEN "/explorer/whois/3bot/" \o nm ELSE "/explorer/3bot/" \o (IF w = 0 THEN DecOf(num) ELSE pk), j))
ASpec == Init /\ [][Draw \/ (stage = 1 /\ stage' = 2 /\ g0' = g0 /\ PrintT("PROGRAM " \o ToJson([cases |-> Times0(g0, Count, QueryOf)])))]_<<g0, stage>>
=================================================================================
