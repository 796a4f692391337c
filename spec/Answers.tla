-------------------------------- MODULE Answers --------------------------------
(* What an explorer's answer says about what was asked. The verdict on an   *)
(* answer is that of TxJson: 3 it must be reported as it is, 2 it may be    *)
(* reported (as what it stands for) or refused, 1 unspecified, 0 it must be *)
(* refused. A report of the program is held against the answer's parts.     *)
EXTENDS TxJson

Must(j, k, f(_)) == IF Has(j, k) THEN f(Get(j, k)) ELSE 0          \* a part without which there is no answer
May0(j, k, f(_)) == IF j[1] = "o" /\ k \notin DOMAIN j[2] THEN 3 ELSE IF At(j, k)[1] = "n" THEN 3 ELSE f(At(j, k))
ListOf(j, f(_)) == IF j[1] = "a" THEN All([k \in 1..Len(j[2]) |-> f(j[2][k])]) ELSE IF Void(j) THEN 1 ELSE 0
AHash(j) == IF j[1] = "s" /\ j[2] # "" THEN VHash(j) ELSE IF Void(j) THEN 1 ELSE 0
ANat(j) == IF j[1] = "i" THEN 3 ELSE IF j[1] \in {"a", "o", "n"} THEN 0 ELSE 1
AFlag(j, given) == IF ~given \/ j[1] = "b" THEN 3 ELSE 1
AKind(j, kind) == IF Has(j, "hashtype") /\ Get(j, "hashtype") = <<"s", kind>> THEN 3 ELSE 0
MustId(j, k) == IF j[1] = "o" /\ k \in DOMAIN j[2] THEN AHash(At(j, k)) ELSE 0
AThis(j, id) == IF j[1] # "s" THEN 0 ELSE IF j[2] = id THEN 3 ELSE IF StrOf(LowerText(Utf8(j[2]))) = id THEN 1 ELSE 0
Texts(j, k) == Map(LAMBDA x : IF x[1] = "s" THEN x[2] ELSE "", GetArr(j, k))

--------------------------------------------------------------------------------
(* Transactions *)
Raw(j) == At(j, "rawtransaction")
Unconfirmed(j) == At(j, "unconfirmed") = <<"b", TRUE>>
ARaw(j) == LET v == Verdict(j) IN IF v = 3 /\ ~IsExact(j) THEN 2 ELSE v
Whole(r) ==                               \* with parts that are more than nothing
  /\ TData(r)[1] = "o" /\ \A k \in DOMAIN TData(r)[2] : ~Void(TData(r)[2][k])
  /\ (Ver(r) = 209 => {"address", "value", "txfee"} \subseteq DOMAIN TData(r)[2])
Counted(j, k, n) == IF Has(j, k) /\ Get(j, k)[1] # "a" THEN (IF Void(Get(j, k)) THEN 1 ELSE 0) ELSE IF Len(GetArr(j, k)) = n THEN 3 ELSE 0
ATx(j) ==
  IF j[1] # "o" \/ ~Has(j, "rawtransaction") THEN 0
  ELSE LET r == Raw(j) v == ARaw(r) IN
    IF v = 0 THEN 0
    ELSE All(<<v, MustId(j, "id"), AFlag(At(j, "unconfirmed"), "unconfirmed" \in DOMAIN j[2]), IF Unconfirmed(j) THEN 3 ELSE Must(j, "height", ANat)>>
             \o (IF v < 2 \/ (v = 2 /\ ~Whole(r)) THEN <<1>>
                 ELSE <<Counted(j, "coininputoutputs", Len(CoinIns(r))), Counted(j, "coinoutputids", Len(CoinOuts(r))),
                        Counted(j, "blockstakeinputoutputs", Len(StakeIns(r))), Counted(j, "blockstakeoutputids", Len(StakeOuts(r)))>>)
             \o <<May0(j, "coininputoutputs", LAMBDA x : ListOf(x, VOut)), May0(j, "coinoutputids", LAMBDA x : ListOf(x, AHash)),
                  May0(j, "blockstakeinputoutputs", LAMBDA x : ListOf(x, VStakeOut)), May0(j, "blockstakeoutputids", LAMBDA x : ListOf(x, AHash))>>)
ATxs(j) == IF j[1] = "a" THEN All([k \in 1..Len(j[2]) |-> ATx(j[2][k])]) ELSE IF Void(j) THEN 1 ELSE 0

(* lower case of what may be upper case *)
Low(s) == StrOf(LowerText(Utf8(s)))
LowAll(q) == [k \in 1..Len(q) |-> Low(q[k])]
AsOut(a, b) == Norm(TrimAs(a, "out")) = Norm(TrimAs(b, "out"))
AsCond(a, b) == Norm(TrimAs(a, "cond")) = Norm(TrimAs(b, "cond"))
ParentId0(ci) == At(ci, "parentid")
(* what is reported about a transaction: r is the report *)
Parents(r, ins, given) ==                 \* the outputs that inputs spend, with the identifiers that the inputs name
  /\ Len(r) = Len(given)
  /\ \A k \in 1..Len(r) : Norm(<<"s", r[k].id>>) = Norm(ParentId0(ins[k])) /\ AsOut(r[k].json, given[k])
TxReported(r, j) ==
  LET raw == Raw(j) m == Modern(raw) IN
  /\ r.id = Low(Get(j, "id")[2])
  /\ r.unconfirmed = Unconfirmed(j)
  /\ (~Unconfirmed(j) => r.height = Get(j, "height")[2])
  /\ r.json[1] = "o" /\ Same(m, Modern(r.json)) /\ (IsExact(raw) /\ Ver(raw) # 0 => r.json = raw)
  /\ Parents(r.ins, CoinIns(m), GetArr(j, "coininputoutputs")) /\ Parents(r.stakeins, StakeIns(m), GetArr(j, "blockstakeinputoutputs"))
  /\ Map(LAMBDA x : x.id, r.outs) = LowAll(Texts(j, "coinoutputids"))
  /\ Map(LAMBDA x : x.id, r.stakeouts) = LowAll(Texts(j, "blockstakeoutputids"))
  /\ \A k \in 1..Len(r.outs) : AsOut(r.outs[k].json, CoinOuts(m)[k])
  /\ \A k \in 1..Len(r.stakeouts) : AsOut(r.stakeouts[k].json, StakeOuts(m)[k])
TxsReported(rs, js) == Len(rs) = Len(js) /\ \A k \in 1..Len(rs) : TxReported(rs[k], js[k])

--------------------------------------------------------------------------------
(* Blocks *)
APayout(j) == IF j[1] # "o" THEN 0 ELSE All(<<IF Has(j, "value") THEN VAmount(Get(j, "value")) ELSE 0, Must(j, "unlockhash", VAddr)>>)
APayouts(j) == ListOf(j, APayout)
AIds(j) == ListOf(j, AHash)
ABlock(b) ==
  IF b[1] # "o" THEN 0
  ELSE LET r == At(b, "rawblock") IN
    IF r[1] # "o" THEN 0
    ELSE All(<<MustId(b, "blockid"), Must(b, "height", ANat), Must(b, "transactions", ATxs), MustId(r, "parentid"), Must(r, "timestamp", ANat),
               May0(r, "minerpayouts", APayouts), May0(b, "minerpayoutids", AIds),
               IF (Has(r, "minerpayouts") /\ Get(r, "minerpayouts")[1] # "a") \/ (Has(b, "minerpayoutids") /\ Get(b, "minerpayoutids")[1] # "a") THEN 1
               ELSE IF Len(GetArr(r, "minerpayouts")) = Len(GetArr(b, "minerpayoutids")) THEN 3 ELSE 0>>)
BlockReported(r, b) ==
  LET raw == At(b, "rawblock") ps == GetArr(raw, "minerpayouts") IN
  /\ r.id = Low(Get(b, "blockid")[2]) /\ r.parentid = Low(Get(raw, "parentid")[2])
  /\ r.height = Get(b, "height")[2] /\ r.timestamp = Get(raw, "timestamp")[2]
  /\ TxsReported(r.txs, GetArr(b, "transactions"))
  /\ Len(r.payouts) = Len(ps)
  /\ \A k \in 1..Len(ps) : /\ r.payouts[k].id = Low(Texts(b, "minerpayoutids")[k])
                           /\ r.payouts[k].value = ToDec(ReadJson(Get(ps[k], "value")).n) /\ r.payouts[k].to = Low(Get(ps[k], "unlockhash")[2])

--------------------------------------------------------------------------------
(* Answers to the queries; id is what was asked for *)
OfBlockId(j, id) == All(<<AKind(j, "blockid"), Must(j, "block", ABlock), Must(At(j, "block"), "blockid", LAMBDA x : AThis(x, id))>>)
OfBlockAt(j, h) == IF j[1] # "o" \/ ~Has(j, "block") THEN 0 ELSE All(<<ABlock(Get(j, "block")), IF At(Get(j, "block"), "height") = <<"i", h>> THEN 3 ELSE 1>>)
OfTx(j, id) == All(<<AKind(j, "transactionid"), Must(j, "transaction", ATx), Must(At(j, "transaction"), "id", LAMBDA x : AThis(x, id))>>)

Holds(j, ids, id) == id \in ToSet(Texts(j, ids))
OnceIn(q, id) == Cardinality({k \in 1..Len(q) : q[k] = id}) = 1
OfOutput(j, id, kind, ids) ==
  LET q == GetArr(j, "transactions") n == Len(q) IN
  All(<<AKind(j, kind), Must(j, "transactions", ATxs), IF n \in {1, 2} THEN 3 ELSE 0>>
      \o (IF n \notin {1, 2} \/ \E k \in 1..n : ATx(q[k]) < 2 THEN <<>>
          ELSE LET hs == {k \in 1..n : Holds(q[k], ids, id)}
               IN <<IF hs = {} THEN (IF \E k \in 1..n : id \in ToSet(LowAll(Texts(q[k], ids))) THEN 1 ELSE 0)
                    ELSE IF Cardinality(hs) > 1 THEN 1
                    ELSE IF OnceIn(Texts(q[CHOOSE k \in hs : TRUE], ids), id) THEN 3 ELSE 1>>))
OutputReported(r, j, id, ids) ==
  LET q == GetArr(j, "transactions") n == Len(q)
      c == CHOOSE k \in 1..n : Holds(q[k], ids, id)
      at == CHOOSE k \in 1..Len(Texts(q[c], ids)) : Texts(q[c], ids)[k] = id
      m == Modern(Raw(q[c]))
      o == IF ids = "coinoutputids" THEN CoinOuts(m)[at] ELSE StakeOuts(m)[at]
  IN /\ r.out.id = id /\ AsOut(r.out.json, o)
     /\ TxReported(r.created, q[c])
     /\ (IF n = 1 THEN r.spent = <<>> ELSE Len(r.spent) = 1 /\ TxReported(r.spent[1], q[3 - c]))

AMulti(j) == IF VAddr(j) # 0 /\ AddrType(Low(j[2])) # 3 THEN 0 ELSE VAddr(j)
AErc20(j) == IF j[1] # "s" \/ j[2] \in {"", "0x", "0X"} THEN (IF Void(j) \/ j[1] = "s" THEN 1 ELSE 0) ELSE VErc20(j)
AErc(j) == IF j[1] # "o" THEN 0 ELSE All(<<Must(j, "tftaddress", VAddr), Must(j, "erc20address", AErc20), Must(j, "confirmations", ANat)>>)
OfAddr(j, a) ==
  All(<<AKind(j, "unlockhash"), Must(j, "transactions", ATxs), May0(j, "multisigaddresses", LAMBDA x : ListOf(x, AMulti)),
        IF j[1] = "o" /\ "erc20info" \in DOMAIN j[2] THEN (IF j[2]["erc20info"][1] = "n" THEN 1 ELSE AErc(j[2]["erc20info"])) ELSE 3>>)
ErcReported(r, e) == r.tft = Low(Get(e, "tftaddress")[2]) /\ r.erc = "0x" \o ToHex(ERC20Bytes(Get(e, "erc20address")[2], 20)) /\ r.confirmations = Get(e, "confirmations")[2]
(* newest first: unconfirmed ones before all others, then by height *)
Newer(a, b) == IF a.unconfirmed \/ b.unconfirmed THEN a.unconfirmed ELSE BLeq(Dec(b.height), Dec(a.height))
AddrReported(r, j, a) ==
  LET js == GetArr(j, "transactions") IN
  /\ r.addr = a
  /\ Len(r.txs) = Len(js)
  /\ \A k \in 1..Len(js) : Cardinality({x \in 1..Len(r.txs) : TxReported(r.txs[x], js[k])}) >= Cardinality({y \in 1..Len(js) : js[y] = js[k]})
  /\ \A k \in 1..(Len(r.txs) - 1) : Newer(r.txs[k], r.txs[k + 1])
  /\ r.multi = LowAll(Texts(j, "multisigaddresses"))
  /\ (IF Has(j, "erc20info") THEN Len(r.erc) = 1 /\ ErcReported(r.erc[1], Get(j, "erc20info")) ELSE r.erc = <<>>)

OfErc(j) == IF AKind(j, "unlockhash") = 0 THEN 0 ELSE IF "erc20info" \notin DOMAIN j[2] THEN 0 ELSE IF j[2]["erc20info"][1] = "n" THEN 1 ELSE AErc(j[2]["erc20info"])
OfMint(j) == IF j[1] # "o" THEN 0 ELSE Must(j, "mintcondition", VAnyCond)
ABot(j) ==
  IF j[1] # "o" THEN 0
  ELSE All(<<Must(j, "id", ANat), May0(j, "names", LAMBDA x : ListOf(x, VName)), May0(j, "addresses", LAMBDA x : ListOf(x, VNet)),
             Must(j, "publickey", LAMBDA x : IF x[1] = "s" /\ x[2] # "" THEN VPk(x) ELSE 1), Must(j, "expiration", ANat)>>)
OfBot(j) == IF j[1] # "o" THEN 0 ELSE Must(j, "record", ABot)
BotReported(r, j) ==
  LET b == Get(j, "record") IN
  /\ r.id = Get(b, "id")[2] /\ r.names = Texts(b, "names") /\ r.addresses = Texts(b, "addresses")
  /\ Norm(<<"s", r.key>>) = Norm(Get(b, "publickey")) /\ r.expiration = Get(b, "expiration")[2]
(* the tip: which block it is, and that block *)
OfTip(j) == MustId(j, "blockid")
InfoReported(r, b) == r.id = Low(Get(b, "blockid")[2]) /\ r.height = Get(b, "height")[2] /\ r.timestamp = Get(At(b, "rawblock"), "timestamp")[2]
================================================================================
