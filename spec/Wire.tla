-------------------------------- MODULE Wire --------------------------------
(* The wire format of the chain: how conditions, fulfillments and          *)
(* transactions (given as JSON) are encoded to bytes, and the identifiers, *)
(* signature hashes and addresses that derive from those bytes.            *)
(*                                                                         *)
(* A JSON value is a tagged tuple: <<"o", record>>, <<"a", sequence>>,     *)
(* <<"s", string>>, <<"i", decimal digits>>, <<"b", boolean>>, <<"n">>,    *)
(* or <<"x", text>> for anything else (floats, unencodable values).        *)
EXTENDS Prim, BigNat, SequencesExt, FiniteSets

--------------------------------------------------------------------------------
(* JSON access *)
IsObj(j) == j[1] = "o"
Has(j, k) == j[1] = "o" /\ k \in DOMAIN j[2] /\ j[2][k][1] # "n"
Get(j, k) == j[2][k]
Empty == <<"o", [x \in {} |-> 0]>>
GetObj(j, k) == IF Has(j, k) /\ j[2][k][1] = "o" THEN j[2][k] ELSE Empty
GetArr(j, k) == IF Has(j, k) /\ j[2][k][1] = "a" THEN j[2][k][2] ELSE <<>>
GetStr(j, k) == IF Has(j, k) /\ j[2][k][1] = "s" THEN j[2][k][2] ELSE ""
GetBig(j, k) == IF Has(j, k) /\ j[2][k][1] = "i" THEN Dec(j[2][k][2]) ELSE <<>>
GetInt(j, k) == BInt(GetBig(j, k))
GetAmount(j, k) == IF IsDec(GetStr(j, k)) THEN Dec(GetStr(j, k)) ELSE <<>>
IsObjWith(j, ks) == j[1] = "o" /\ DOMAIN j[2] = ks

Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

--------------------------------------------------------------------------------
(* Binary encodings. f is "sia" or "riv". *)
LE(n, size) == BPad(BOfInt(n), size)
LE8(n) == LE(n, 8)
RivLen(n) ==
  IF n < 128 THEN LE(n * 2, 1)
  ELSE IF n < 16384 THEN LE(n * 4 + 1, 2)
  ELSE IF n < 2097152 THEN LE(n * 8 + 3, 3)
  ELSE BPad(BAdd(BMul(BOfInt(n), 8), <<7>>), 4)
LenPrefix(f, n) == IF f = "sia" THEN LE8(n) ELSE RivLen(n)
Slice(f, b) == LenPrefix(f, Len(b)) \o b
SliceOf(f, bs) == LenPrefix(f, Len(bs)) \o Cat(bs)       \* bs: the encoded elements
Zeros(n) == [i \in 1..n |-> 0]
HexOr(s, n) == IF s = "" THEN Zeros(n) ELSE Hex(s)

EncAmount(f, v) == Slice(f, BRev(v))

SpecBytes(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
PkPrefix == Utf8("ed25519:")
(* A public key is written as ed25519:<64 hex digits>. *)
IsPk(s) == LET u == Utf8(s) IN
  Len(u) = 72 /\ SubSeq(u, 1, 8) = PkPrefix /\ IsHex(StrOf(SubSeq(u, 9, 72)))
PkBytes(s) == Hex(StrOf(SubSeq(Utf8(s), 9, 72)))
EncKey(f, k) == IF f = "sia" THEN SpecBytes(Utf8("ed25519"), 16) \o Slice("sia", k) ELSE <<1>> \o k
EncPk(f, s) == IF IsPk(s) THEN EncKey(f, PkBytes(s))
               ELSE IF f = "sia" THEN Zeros(16) \o Zeros(8) ELSE <<0>>

--------------------------------------------------------------------------------
(* Addresses: type, 32-byte hash and 6-byte checksum, in hexadecimal *)
AddrText(type, hash) ==
  ToHex(<<type>> \o hash \o IF type = 0 THEN Zeros(6) ELSE SubSeq(Blake(<<type>> \o hash), 1, 6))
NilAddr == AddrText(0, Zeros(32))
IsAddr(s) == IsHex(s) /\ Len(Hex(s)) = 39 /\
             LET b == Hex(s) IN b[1] \in 0..3 /\ s = AddrText(b[1], SubSeq(b, 2, 33)) /\ (b[1] = 0 => s = NilAddr)
AddrType(s) == Hex(s)[1]
EncAddr(s) == SubSeq(Hex(s), 1, 33)
KeyAddr(k) == AddrText(1, Blake(Slice("sia", EncKey("sia", k))))
PkAddr(s) == KeyAddr(PkBytes(s))
(* the address of an ERC20 withdrawal: the last 20 bytes of the hash of an address *)
ERC20Of(addr) == LET h == Blake(EncAddr(addr)) IN SubSeq(h, 13, 32)

(* Merkle tree: leaves are prefixed with 0, nodes with 1; the left subtree of a node *)
(* is the largest perfect tree that leaves at least one leaf on the right.           *)
Leaf(H(_), d) == H(<<0>> \o d)
RECURSIVE PowBelow(_, _)
PowBelow(p, n) == IF 2 * p >= n THEN p ELSE PowBelow(2 * p, n)
RECURSIVE MerkleRoot(_, _)
MerkleRoot(H(_), ds) ==
  IF Len(ds) = 1 THEN Leaf(H, ds[1])
  ELSE LET k == PowBelow(1, Len(ds))
       IN H(<<1>> \o MerkleRoot(H, SubSeq(ds, 1, k)) \o MerkleRoot(H, SubSeq(ds, k + 1, Len(ds))))

RECURSIVE BytesLess(_, _)
BytesLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                   ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE BytesLess(Tail(a), Tail(b))
AddrLess(a, b) == BytesLess(Hex(a), Hex(b))
MultiAddr(owners, n) ==
  LET so == SortSeq(owners, AddrLess)
  IN AddrText(3, MerkleRoot(Blake, <<LE8(Len(owners))>> \o Map(EncAddr, so) \o <<LE8(n)>>))

--------------------------------------------------------------------------------
(* Conditions *)
CType(j) == GetInt(j, "type")
CData(j) == GetObj(j, "data")
Owners(j) == Map(LAMBDA v : v[2], GetArr(CData(j), "unlockhashes"))
MinSigs(j) == GetInt(CData(j), "minimumsignaturecount")
RECURSIVE EncCondData(_, _)
EncCondData(f, j) ==
  LET d == CData(j) t == CType(j) IN
  CASE t = 0 -> <<>>
    [] t = 1 -> EncAddr(GetStr(d, "unlockhash"))
    [] t = 2 -> EncAddr(GetStr(d, "sender")) \o EncAddr(GetStr(d, "receiver"))
                  \o HexOr(GetStr(d, "hashedsecret"), 32) \o BPad(GetBig(d, "timelock"), 8)
    [] t = 3 -> BPad(GetBig(d, "locktime"), 8) \o <<CType(GetObj(d, "condition"))>>
                  \o EncCondData(f, GetObj(d, "condition"))
    [] t = 4 -> BPad(GetBig(d, "minimumsignaturecount"), 8) \o SliceOf(f, Map(EncAddr, Owners(j)))
EncCond(f, j) == <<CType(j)>> \o Slice(f, EncCondData(f, j))
(* the condition without a time lock around it *)
Inner(j) == IF CType(j) = 3 THEN GetObj(CData(j), "condition") ELSE j
LockOf(j) == IF CType(j) = 3 THEN GetBig(CData(j), "locktime") ELSE <<>>
CondAddr(j) ==
  LET c == Inner(j) t == CType(c) d == CData(c) IN
  CASE t = 0 -> NilAddr
    [] t = 1 -> GetStr(d, "unlockhash")
    [] t = 2 -> AddrText(2, Blake(Slice("sia", EncCondData("sia", c))))
    [] t = 4 -> MultiAddr(Owners(c), MinSigs(c))
AddrField(j, k) == Has(j, k) /\ Get(j, k)[1] = "s" /\ IsAddr(GetStr(j, k))
NatField(j, k, size) == Has(j, k) /\ Get(j, k)[1] = "i" /\ IsDec(Get(j, k)[2]) /\ Len(GetBig(j, k)) <= size
RECURSIVE CondOK(_, _)
(* well-formed condition JSON; nest: may it be a time lock? *)
CondOK(j, nest) ==
  IsObj(j) /\ (Has(j, "type") => NatField(j, "type", 1)) /\ CType(j) \in 0..4 /\
  LET t == CType(j) d == CData(j) IN
  CASE t = 0 -> TRUE
    [] t = 1 -> AddrField(d, "unlockhash")
    [] t = 2 -> nest /\ AddrField(d, "sender") /\ AddrField(d, "receiver") /\ IsHex(GetStr(d, "hashedsecret"))
                /\ Len(Hex(GetStr(d, "hashedsecret"))) = 32 /\ NatField(d, "timelock", 8)
    [] t = 3 -> nest /\ NatField(d, "locktime", 8) /\ Has(d, "condition") /\ CondOK(GetObj(d, "condition"), FALSE)
    [] t = 4 -> NatField(d, "minimumsignaturecount", 3)
                /\ \A v \in ToSet(GetArr(d, "unlockhashes")) : v[1] = "s" /\ IsAddr(v[2])

--------------------------------------------------------------------------------
(* Fulfillments *)
FType(j) == GetInt(j, "type")
FData(j) == GetObj(j, "data")
EncPair(f, p) == EncPk(f, GetStr(p, "publickey")) \o Slice(f, Hex(GetStr(p, "signature")))
EncFulf(f, j) ==
  LET t == FType(j) d == FData(j) IN
  <<t>> \o Slice(f,
    CASE t = 1 -> EncPair(f, d)
      [] t = 2 -> EncPair(f, d) \o Hex(GetStr(d, "secret"))
      [] t = 3 -> SliceOf(f, Map(LAMBDA p : EncPair(f, p), GetArr(d, "pairs"))))
SigField(j) == Has(j, "signature") => Get(j, "signature")[1] = "s" /\ IsHex(GetStr(j, "signature"))
                                        /\ Len(Hex(GetStr(j, "signature"))) \in {0, 64}
FulfOK(j) ==
  IsObj(j) /\ NatField(j, "type", 1) /\ FType(j) \in 1..3 /\
  LET d == FData(j) t == FType(j) IN
  IF t = 3 THEN \A p \in ToSet(GetArr(d, "pairs")) : IsObj(p) /\ SigField(p)
  ELSE SigField(d) /\ (t = 2 /\ Has(d, "secret") => IsHex(GetStr(d, "secret")) /\ Len(Hex(GetStr(d, "secret"))) = 32)

--------------------------------------------------------------------------------
(* Transactions *)
Ver(tx) == GetInt(tx, "version")
TData(tx) == GetObj(tx, "data")
CoinIns(tx) == GetArr(TData(tx), "coininputs")
RefundOf(tx) == IF Has(TData(tx), "refundcoinoutput") THEN <<Get(TData(tx), "refundcoinoutput")>> ELSE <<>>
HasRefundField(v) == v \in {144, 145, 146, 208, 210}
CreatedOut(tx) ==               \* what an ERC20 coin creation pays out
  <<"o", [value |-> Get(TData(tx), "value"),
          condition |-> <<"o", [type |-> <<"i", "1">>, data |-> <<"o", [unlockhash |-> Get(TData(tx), "address")]>>]>>]>>
CoinOuts(tx) == IF Ver(tx) = 209 THEN <<CreatedOut(tx)>> ELSE IF HasRefundField(Ver(tx)) THEN RefundOf(tx) ELSE GetArr(TData(tx), "coinoutputs")
StakeIns(tx) == GetArr(TData(tx), "blockstakeinputs")
StakeOuts(tx) == GetArr(TData(tx), "blockstakeoutputs")
FeeList(tx) == IF Ver(tx) \in {0, 1, 128, 129} THEN Map(LAMBDA v : Dec(v[2]), GetArr(TData(tx), "minerfees"))
               ELSE IF Has(TData(tx), "txfee") THEN <<GetAmount(TData(tx), "txfee")>> ELSE <<>>
ParentId(ci) == GetStr(ci, "parentid")
Fulf(ci) == GetObj(ci, "fulfillment")
OutValue(co) == GetAmount(co, "value")
OutCond(co) == GetObj(co, "condition")
ArbData(tx) == IF GetStr(TData(tx), "arbitrarydata") = "" THEN <<>> ELSE Base64(GetStr(TData(tx), "arbitrarydata"))
Nonce(tx) == Base64(GetStr(TData(tx), "nonce"))

EncIn(f, ci) == HexOr(ParentId(ci), 32) \o EncFulf(f, Fulf(ci))
EncOut(f, co) == EncAmount(f, OutValue(co)) \o EncCond(f, OutCond(co))
EncIns(f, s) == SliceOf(f, Map(LAMBDA ci : EncIn(f, ci), s))
EncOuts(f, s) == SliceOf(f, Map(LAMBDA co : EncOut(f, co), s))
EncFees(f, s) == SliceOf(f, Map(LAMBDA v : EncAmount(f, v), s))
EncOpt(f, s) == IF s = <<>> THEN <<0>> ELSE <<1>> \o EncOut(f, s[1])

(* specifiers that prefix the identifier input and the signature hash input *)
TxSpecifier(v) ==
  SpecBytes(Utf8(CASE v = 128 -> "minter defin tx" [] v = 129 -> "coin mint tx"
    [] v = 144 -> "bot register tx" [] v = 145 -> "bot recupdate tx" [] v = 146 -> "bot nametrans tx"
    [] v = 208 -> "erc20 convert tx" [] v = 209 -> "erc20 coingen tx" [] v = 210 -> "erc20 addrreg tx"), 16)

(* network addresses of a bot: hostnames, dotted IPv4 and (full or shortened) IPv6 *)
DotDigits == {46} \cup 48..57
IsIPv4Text(u) == u # <<>> /\ \A i \in 1..Len(u) : u[i] \in DotDigits
RECURSIVE SplitAt(_, _, _, _)
SplitAt(u, sep, i, cur) ==
  IF i > Len(u) THEN <<cur>>
  ELSE IF u[i] = sep THEN <<cur>> \o SplitAt(u, sep, i + 1, <<>>)
  ELSE SplitAt(u, sep, i + 1, Append(cur, u[i]))
Split(u, sep) == SplitAt(u, sep, 1, <<>>)
Pad4(u) == [i \in 1..4 |-> IF i <= 4 - Len(u) THEN 48 ELSE u[i - (4 - Len(u))]]
IPv6Group(u) == Hex(StrOf(Pad4(u)))
IPv6Bytes(u) ==
  LET parts == Split(u, 58)                         \* groups; an empty group marks ::
      gap == {i \in 1..Len(parts) : parts[i] = <<>>}
      full == SelectSeq(parts, LAMBDA p : p # <<>>)
      head == IF gap = {} THEN full
              ELSE SelectSeq(SubSeq(parts, 1, CHOOSE i \in gap : \A k \in gap : i <= k), LAMBDA p : p # <<>>)
      tail == SubSeq(full, Len(head) + 1, Len(full))
  IN Cat(Map(IPv6Group, head)) \o Zeros(16 - 2 * Len(full)) \o Cat(Map(IPv6Group, tail))
EncBotAddr(s) ==
  LET u == Utf8(s) IN
  IF 58 \in ToSet(u) THEN <<2 + 4 * 16>> \o IPv6Bytes(u)
  ELSE IF IsIPv4Text(u) THEN <<1 + 4 * 4>> \o Map(LAMBDA p : BInt(Dec(StrOf(p))), Split(u, 46))
  ELSE <<4 * Len(u)>> \o u
Strs(a) == Map(LAMBDA v : v[2], a)
EncBotAddrs(s) == Map(EncBotAddr, s)
EncNames(s) == Map(LAMBDA n : Slice("riv", Utf8(n)), s)
BotAddrsAdd(tx) == IF Ver(tx) = 144 THEN Strs(GetArr(TData(tx), "addresses"))
                   ELSE Strs(GetArr(GetObj(TData(tx), "addresses"), "add"))
BotAddrsDel(tx) == Strs(GetArr(GetObj(TData(tx), "addresses"), "remove"))
BotNamesAdd(tx) == IF Ver(tx) \in {144, 146} THEN Strs(GetArr(TData(tx), "names"))
                   ELSE Strs(GetArr(GetObj(TData(tx), "names"), "add"))
BotNamesDel(tx) == Strs(GetArr(GetObj(TData(tx), "names"), "remove"))
BotMonths(tx) == GetInt(TData(tx), "nrofmonths")
BotFlags(tx) ==
  BotMonths(tx) + (IF BotAddrsAdd(tx) \o BotAddrsDel(tx) # <<>> THEN 32 ELSE 0)
    + (IF BotNamesAdd(tx) \o BotNamesDel(tx) # <<>> THEN 64 ELSE 0)
    + (IF RefundOf(tx) # <<>> THEN 128 ELSE 0)
Ident(tx) == GetObj(TData(tx), "identification")
ERC20Bytes(s, n) ==
  LET u == Utf8(s) IN
  IF u = <<>> THEN Zeros(n)
  ELSE IF Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120} THEN Hex(StrOf(SubSeq(u, 3, Len(u)))) ELSE Hex(s)
SliceSig(j, k) == Slice("riv", Hex(GetStr(j, k)))

(* legacy transactions (version 0): an unlocker per input, an address per output *)
OldIn(ci) == HexOr(ParentId(ci), 32) \o <<1>>
  \o Slice("sia", EncPk("sia", GetStr(GetObj(GetObj(ci, "unlocker"), "condition"), "publickey")))
  \o Slice("sia", Hex(GetStr(GetObj(GetObj(ci, "unlocker"), "fulfillment"), "signature")))
OldOut(co) == EncAmount("sia", OutValue(co)) \o EncAddr(GetStr(co, "unlockhash"))
OldSigIn(ci) == HexOr(ParentId(ci), 32)
  \o EncAddr(PkAddr(GetStr(GetObj(GetObj(ci, "unlocker"), "condition"), "publickey")))
OldTail(tx) == EncFees("sia", Map(LAMBDA v : Dec(v[2]), GetArr(TData(tx), "minerfees"))) \o Slice("sia", ArbData(tx))

(* the bytes that the identifiers derive from *)
IdInput(tx) ==
  LET v == Ver(tx) d == TData(tx) r == "riv" IN
  CASE v = 0 ->
      <<0>> \o SliceOf("sia", Map(OldIn, CoinIns(tx))) \o SliceOf("sia", Map(OldOut, CoinOuts(tx)))
        \o SliceOf("sia", Map(OldIn, StakeIns(tx))) \o SliceOf("sia", Map(OldOut, StakeOuts(tx))) \o OldTail(tx)
    [] v = 1 ->
      <<1>> \o Slice("sia", EncIns("sia", CoinIns(tx)) \o EncOuts("sia", CoinOuts(tx))
        \o EncIns("sia", StakeIns(tx)) \o EncOuts("sia", StakeOuts(tx))
        \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx)))
    [] v = 128 ->
      TxSpecifier(v) \o Nonce(tx) \o EncFulf("sia", GetObj(d, "mintfulfillment"))
        \o EncCond("sia", GetObj(d, "mintcondition")) \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx))
    [] v = 129 ->
      TxSpecifier(v) \o Nonce(tx) \o EncFulf("sia", GetObj(d, "mintfulfillment"))
        \o EncOuts("sia", CoinOuts(tx)) \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx))
    [] v = 144 ->
      TxSpecifier(v) \o <<BotFlags(tx), Len(BotAddrsAdd(tx)) + 16 * Len(BotNamesAdd(tx))>>
        \o Cat(EncBotAddrs(BotAddrsAdd(tx))) \o Cat(EncNames(BotNamesAdd(tx)))
        \o EncAmount(r, GetAmount(d, "txfee")) \o EncIns(r, CoinIns(tx))
        \o (IF RefundOf(tx) = <<>> THEN <<>> ELSE EncOut(r, RefundOf(tx)[1]))
        \o EncPk(r, GetStr(Ident(tx), "publickey")) \o Hex(GetStr(Ident(tx), "signature"))
    [] v = 145 ->
      TxSpecifier(v) \o BPad(GetBig(d, "id"), 4) \o <<BotFlags(tx)>>
        \o (IF BotAddrsAdd(tx) \o BotAddrsDel(tx) = <<>> THEN <<>>
            ELSE <<Len(BotAddrsAdd(tx)) + 16 * Len(BotAddrsDel(tx))>>
                   \o Cat(EncBotAddrs(BotAddrsAdd(tx))) \o Cat(EncBotAddrs(BotAddrsDel(tx))))
        \o (IF BotNamesAdd(tx) \o BotNamesDel(tx) = <<>> THEN <<>>
            ELSE <<Len(BotNamesAdd(tx)) + 16 * Len(BotNamesDel(tx))>>
                   \o Cat(EncNames(BotNamesAdd(tx))) \o Cat(EncNames(BotNamesDel(tx))))
        \o EncAmount(r, GetAmount(d, "txfee")) \o EncIns(r, CoinIns(tx))
        \o (IF RefundOf(tx) = <<>> THEN <<>> ELSE EncOut(r, RefundOf(tx)[1]))
        \o SliceSig(d, "signature")
    [] v = 146 ->
      TxSpecifier(v) \o BPad(GetBig(GetObj(d, "sender"), "id"), 4) \o SliceSig(GetObj(d, "sender"), "signature")
        \o BPad(GetBig(GetObj(d, "receiver"), "id"), 4) \o SliceSig(GetObj(d, "receiver"), "signature")
        \o <<Len(BotNamesAdd(tx)) + (IF RefundOf(tx) = <<>> THEN 0 ELSE 16)>> \o Cat(EncNames(BotNamesAdd(tx)))
        \o EncAmount(r, GetAmount(d, "txfee")) \o EncIns(r, CoinIns(tx))
        \o (IF RefundOf(tx) = <<>> THEN <<>> ELSE EncOut(r, RefundOf(tx)[1]))
    [] v = 208 ->
      TxSpecifier(v) \o ERC20Bytes(GetStr(d, "address"), 20) \o EncAmount(r, GetAmount(d, "value"))
        \o EncAmount(r, GetAmount(d, "txfee")) \o EncIns(r, CoinIns(tx)) \o EncOpt(r, RefundOf(tx))
    [] v = 209 ->
      TxSpecifier(v) \o EncAddr(GetStr(d, "address")) \o EncAmount(r, GetAmount(d, "value"))
        \o EncAmount(r, GetAmount(d, "txfee")) \o ERC20Bytes(GetStr(d, "blockid"), 32)
        \o ERC20Bytes(GetStr(d, "txid"), 32)
    [] v = 210 ->
      TxSpecifier(v) \o EncPk(r, GetStr(d, "pubkey")) \o SliceSig(d, "signature")
        \o EncAmount(r, GetAmount(d, "regfee")) \o EncAmount(r, GetAmount(d, "txfee"))
        \o EncIns(r, CoinIns(tx)) \o EncOpt(r, RefundOf(tx))

(* the whole transaction *)
BinEncode(tx) ==
  LET b == IdInput(tx) IN IF Ver(tx) < 2 THEN b ELSE <<Ver(tx)>> \o SubSeq(b, 17, Len(b))
OutputId(tx, kind, i) ==        \* i counts from 0
  LET n == IF Ver(tx) = 0 THEN 15 ELSE 16
  IN ToHex(Blake(SpecBytes(Utf8(IF kind = "coin" THEN "coin output" ELSE "blstake output"), n) \o IdInput(tx) \o LE8(i)))
CoinOutputIds(tx) == [i \in 1..Len(CoinOuts(tx)) |-> OutputId(tx, "coin", i - 1)]

(* the bytes that are hashed to get the message that is signed; x: the encoded extra objects *)
SigInput(tx, x) ==
  LET v == Ver(tx) d == TData(tx) r == "riv"
      ids(s) == LE8(Len(s)) \o Cat(Map(LAMBDA ci : HexOr(ParentId(ci), 32), s))
      refund == EncOpt(r, RefundOf(tx))
      tail == ids(CoinIns(tx)) \o EncAmount(r, GetAmount(d, "txfee")) \o refund
  IN
  CASE v = 0 ->
      x \o Cat(Map(OldSigIn, CoinIns(tx))) \o SliceOf("sia", Map(OldOut, CoinOuts(tx)))
        \o Cat(Map(OldSigIn, StakeIns(tx))) \o SliceOf("sia", Map(OldOut, StakeOuts(tx))) \o OldTail(tx)
    [] v = 1 ->
      <<1>> \o x \o ids(CoinIns(tx)) \o EncOuts("sia", CoinOuts(tx)) \o ids(StakeIns(tx))
        \o EncOuts("sia", StakeOuts(tx)) \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx))
    [] v = 128 ->
      <<v>> \o TxSpecifier(v) \o Nonce(tx) \o x \o EncCond("sia", GetObj(d, "mintcondition"))
        \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx))
    [] v = 129 ->
      <<v>> \o TxSpecifier(v) \o Nonce(tx) \o x \o EncOuts("sia", CoinOuts(tx))
        \o EncFees("sia", FeeList(tx)) \o Slice("sia", ArbData(tx))
    [] v = 144 ->
      <<v>> \o TxSpecifier(v) \o x \o SliceOf(r, EncBotAddrs(BotAddrsAdd(tx))) \o SliceOf(r, EncNames(BotNamesAdd(tx)))
        \o <<BotMonths(tx)>> \o tail \o EncPk(r, GetStr(Ident(tx), "publickey"))
    [] v = 145 ->
      <<v>> \o TxSpecifier(v) \o BPad(GetBig(d, "id"), 4) \o x
        \o SliceOf(r, EncBotAddrs(BotAddrsAdd(tx))) \o SliceOf(r, EncBotAddrs(BotAddrsDel(tx)))
        \o SliceOf(r, EncNames(BotNamesAdd(tx))) \o SliceOf(r, EncNames(BotNamesDel(tx)))
        \o <<BotMonths(tx)>> \o tail
    [] v = 146 ->
      <<v>> \o TxSpecifier(v) \o BPad(GetBig(GetObj(d, "sender"), "id"), 4) \o BPad(GetBig(GetObj(d, "receiver"), "id"), 4)
        \o x \o SliceOf(r, EncNames(BotNamesAdd(tx))) \o tail
    [] v = 208 ->
      <<v>> \o TxSpecifier(v) \o ERC20Bytes(GetStr(d, "address"), 20) \o EncAmount(r, GetAmount(d, "value")) \o x \o tail
    [] v = 209 ->
      <<v>> \o TxSpecifier(v) \o x \o EncAddr(GetStr(d, "address")) \o EncAmount("sia", GetAmount(d, "value"))
        \o EncAmount("sia", GetAmount(d, "txfee")) \o ERC20Bytes(GetStr(d, "blockid"), 32)
        \o ERC20Bytes(GetStr(d, "txid"), 32)
    [] v = 210 ->
      <<v>> \o TxSpecifier(v) \o EncPk(r, GetStr(d, "pubkey")) \o x \o ids(CoinIns(tx))
        \o EncAmount(r, GetAmount(d, "regfee")) \o EncAmount(r, GetAmount(d, "txfee")) \o refund
SigHash(tx, x) == Blake(SigInput(tx, x))
(* the encoding used by a transaction version *)
Fmt(tx) == IF Ver(tx) \in {0, 1, 128, 129, 209} THEN "sia" ELSE "riv"
=============================================================================
