-------------------------------- MODULE Codec --------------------------------
(* Values and their notations: the two encoders and the Merkle tree as      *)
(* state machines that are fed piece by piece, and amounts, addresses,      *)
(* locks and transactions. The module replays what the real code made of    *)
(* them and names the rules that it broke.                                  *)
EXTENDS Rules, Encoding, TxJson, Times, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, i, s, bad, hit
vars == <<t, i, s, bad, hit>>

C(p, n, ok) == IF ok THEN {} ELSE {<<p, n>>}
CIf(cond, set) == IF cond THEN set ELSE {}
Accepted(e) == e.res.k = "ok"
(* a reading against what was accepted *)
Follows(p, x, e) == C(p, "a valid value is accepted", x.r = "ok" => Accepted(e))
               \cup C(p, "an invalid value is refused", x.r = "no" => ~Accepted(e))
Decided(x, e) == Accepted(e) /\ x.r \in {"ok", "may"}

--------------------------------------------------------------------------------
(* Encoders: what was written stays, what is written is appended, a value that is refused leaves nothing behind *)
Empty0 == [sia |-> <<>>, riv |-> <<>>, leaves |-> <<>>]
Written(e) == Write(e.f, e.op, e.v)
Enc(st, e) ==
  LET w == Written(e)
  IN Follows("T03", w, e) \cup CIf(Decided(w, e), C("T03", "encodes to the prescribed bytes", e.res.new = ToHex(w.b)))
     \cup CIf(Accepted(e), C("T03", "what was written stays", e.res.kept))
(* sequences too long to list: n equal bytes or booleans *)
Long(st, e) ==
  LET p == Prefix(e.f, e.n)
  IN Follows("T03", p, e)
     \cup CIf(Accepted(e) /\ p.r = "ok",
              C("T03", "encodes to the prescribed bytes", e.res.head = ToHex(p.b) /\ e.res.len = Len(p.b) + e.n /\ e.res.rest))
Data(st, e) == C("T03", "what was written stays", e.hex = ToHex(st[e.f]))
(* objects on their own *)
Alone(st, e) ==
  Follows("T03", Val(<<>>), e)
  \cup CIf(Accepted(e), C("T03", "encodes to the prescribed bytes", e.res.sia = ToHex(WriteObject("sia", e.v)) /\ e.res.riv = ToHex(WriteObject("riv", e.v))))

--------------------------------------------------------------------------------
(* Amounts *)
Reading(a) ==
  CASE a[1] = "cur" -> Ok(Dec(a[2]))
    [] a[1] = "int" -> ReadInt(a[2])
    [] a[1] = "str" -> ReadText(a[2])
    [] a[1] = "float" -> ReadDecimal(a[2])
    [] a[1] = "dec" -> ReadDecimal(a[2])
    [] a[1] = "none" -> May(<<>>)
    [] a[1] = "json" -> ReadJson(a[2])
    [] OTHER -> No
Forms(e, n) ==          \* every form of the amount
  LET d == ToDec(n) IN
  /\ e.res.int = d /\ e.res.json = d
  /\ e.res.str = AmountText(n) /\ e.res.unit = AmountText(n) \o " TFT"
  /\ e.res.again = <<d, d, d>>
Combined(op, a, b) == CASE op = "add" -> Plus(a, b) [] op = "sub" -> Minus(a, b) [] op = "mul" -> Times(a, b)
Compared(op, a, b) ==
  CASE op = "lt" -> BLt(a, b) [] op = "le" -> BLeq(a, b) [] op = "eq" -> a = b
    [] op = "ne" -> a # b [] op = "gt" -> BLt(b, a) [] op = "ge" -> BLeq(b, a)
BTotal(ns) == FoldLeft(LAMBDA x, y : BNorm(BAdd(x, y)), <<>>, ns)
Amt(st, e) ==
  CASE e.op = "make" ->
         LET x == Reading(e.a)
         IN Follows("T04", x, e) \cup CIf(Decided(x, e), C("T04", "every form is of that amount", Forms(e, x.n)))
    [] e.op \in {"add", "sub", "mul"} ->
         LET a == Dec(e.a[2]) b == Reading(e.b)
             r == IF b.r \in {"no", "free"} THEN b
                  ELSE LET v == IF e.how = "r" THEN Combined(e.op, b.n, a) ELSE Combined(e.op, a, b.n)
                       IN IF b.r = "may" THEN Weaker(v) ELSE v
         IN Follows("T04", r, e)
            \cup CIf(Decided(r, e), C("T04", "computes exactly", Forms(e, r.n)))
            \cup C("T04", "operands stay as they are",
                   /\ (e.how # "i" \/ ~Accepted(e) => e.aa = ToDec(a))
                   /\ (b.r \in {"ok", "may"} /\ e.b[1] = "cur" => e.bb = e.b[2]))
    [] e.op = "sum" ->
         LET r == Ok(BTotal(Map(LAMBDA x : Dec(x), e.list)))
         IN Follows("T04", r, e) \cup CIf(Decided(r, e), C("T04", "computes exactly", Forms(e, r.n)))
    [] OTHER ->
         LET b == Reading(e.b)
         IN C("T04", "a valid value is accepted", b.r = "ok" => Accepted(e))
            \cup CIf(Decided(b, e), C("T04", "compares exactly", e.res.val = Compared(e.op, Dec(e.a[2]), b.n)))

--------------------------------------------------------------------------------
(* Addresses *)
Addr(st, e) ==
  LET ok == IsAddr(e.text)
      low == StrOf(LowerText(Utf8(e.text)))
      x == IF ok THEN Val(<<>>) ELSE IF IsAddr(low) THEN Perhaps(<<>>) ELSE Bad
  IN Follows("T05", x, e)
     \cup CIf(Decided(x, e),
              C("T05", "decodes to the same address",
                /\ e.res.str = low /\ e.res.json = low /\ e.res.type = AddrType(low) /\ e.res.hash = ToHex(SubSeq(Hex(low), 2, 33))
                /\ e.res.sia = ToHex(EncAddr(low)) /\ e.res.riv = ToHex(EncAddr(low))))
(* names and network addresses of 3Bots close to a valid one *)
NearBot(st, e) ==
  LET v(x) == IF e.kind = "name" THEN VName(<<"s", x.text>>) ELSE VNet(<<"s", x.text>>)
      fine(x) == LET w == v(x) IN (w = 0 => ~x.ok) /\ (w = 3 => x.ok /\ x.str = x.text)
  IN {<<"B02", "a well-formed name or address is accepted as it is, a malformed one refused: " \o x.text>> : x \in {y \in ToSet(e.res.all) : ~fine(y)}}
(* the texts close to a valid one that are accepted *)
NearBy(st, e) ==
  LET low(u) == StrOf(LowerText(Utf8(u)))
      fine(x) == CASE e.kind = "addr" -> IsAddr(low(x.text)) /\ x.str = low(x.text)
                   [] e.kind = "pk" -> VPk(<<"s", x.text>>) # 0 /\ (IsPk(low(x.text)) => x.str = low(x.text))
                   [] OTHER -> LET v == VErc20(<<"s", x.text>>) IN v # 0 /\ (v \in {2, 3} => x.str = "0x" \o ToHex(ERC20Bytes(x.text, 20)))
  IN C("T05", "a text close to an address is another one, or refused", \A x \in ToSet(e.res.got) : fine(x))
AddrMake(st, e) ==
  Follows("T05", IF e.type \in 1..3 THEN Val(<<>>) ELSE Open, e)
  \cup CIf(Accepted(e) /\ e.type \in 0..3, C("T05", "the text form is that of the address", e.res.str = AddrText(e.type, Hex(e.hash)) /\ e.res.again = e.res.str))
AddrEq(st, e) ==
  CIf(Accepted(e) /\ IsAddr(e.a) /\ IsAddr(e.b), C("T05", "texts denote the same address only for the same type and hash", e.res.eq = (e.a = e.b) /\ e.res.ne = (e.a # e.b) /\ (e.res.eq => e.res.same)))
  \cup CIf(IsAddr(e.a) /\ IsAddr(e.b), C("T05", "a valid value is accepted", Accepted(e)))
Pk(st, e) ==
  LET low == StrOf(LowerText(Utf8(e.text)))
      x == IF IsPk(e.text) THEN (IF low = e.text THEN Val(<<>>) ELSE Perhaps(<<>>)) ELSE IF VPk(<<"s", e.text>>) = 0 THEN Bad ELSE Open
  IN Follows("T05", x, e)
     \cup CIf(Decided(x, e),
              C("T05", "decodes to the same key", e.res.str = low /\ e.res.sia = ToHex(EncPk("sia", low)) /\ e.res.riv = ToHex(EncPk("riv", low)))
              \cup C("T05", "the address is the prescribed hash", e.res.addr = PkAddr(low)))
CondAddress(st, e) ==
  Follows("T05", Val(<<>>), e)
  \cup CIf(Accepted(e), C("T05", "the address is the prescribed hash", e.res.addr = CondAddr(e.json)))
Multi(st, e) ==           \* the same owners in several orders
  Follows("T05", Val(<<>>), e)
  \cup CIf(Accepted(e), C("T05", "the address is independent of the order of the owners", \A k \in 1..Len(e.res.addrs) : e.res.addrs[k] = MultiAddr(e.owners, e.n)))
Erc(st, e) ==
  Follows("T05", Val(<<>>), e)
  \cup CIf(Accepted(e), C("T05", "the address is the prescribed hash", e.res.str = "0x" \o ToHex(ERC20Of(e.addr)) /\ e.res.json = e.res.str))
ErcText(st, e) ==
  LET v == VErc20(<<"s", e.text>>)
  IN CIf(e.text # "" /\ v \in {0, 3}, Follows("T05", IF v = 3 THEN Val(<<>>) ELSE Bad, e))
     \cup CIf(Accepted(e) /\ v \in {2, 3} /\ Len(Utf8(e.text)) > 2, C("T05", "decodes to the same address", e.res.str = "0x" \o ToHex(ERC20Bytes(e.text, 20))))

--------------------------------------------------------------------------------
(* Locks *)
LockReading(e) ==        \* <<"at" or "in", reading>>
  CASE e.form = "int" -> <<"at", IF IsDec(e.arg) THEN Ok(Dec(e.arg)) ELSE No>>
    [] e.form = "text" -> ReadLock(e.arg, e.year)
    [] e.form = "td" -> <<"in", Ok(Dec(e.arg))>>                \* whole seconds
    [] e.form = "dt" -> <<"at", Late(Dec(e.arg))>>
    [] e.form = "none" -> <<"at", Ok(<<>>)>>
    [] e.form = "lock" -> <<"at", Ok(Dec(e.arg))>>
Lock(st, e) ==
  LET r == LockReading(e) x == r[2]
      v == Dec(e.res.value)
      here == IF r[1] = "at" THEN v = x.n
              ELSE IF e.now # "" THEN v = BAdd(Dec(e.now), x.n)
              ELSE BLeq(BAdd(Dec(e.t0), x.n), v) /\ BLeq(v, BAdd(Dec(e.t1), x.n))
  IN Follows("T06", x, e)
     \cup CIf(Decided(x, e), C("T06", "stored as exactly that height or second", here))
     \cup CIf(Accepted(e),
              C("T06", "height or time by the threshold", e.res.ts = BLeq(LockThreshold, v))
              \cup C("T06", "locked exactly until then", \A k \in 1..Len(e.at) : e.res.locked[k] = LockedAt(v, e.at[k][1], Dec(e.at[k][2])))
              \cup C("T06", "the text form of a time is that time", ~BLeq(LockThreshold, v) \/ e.res.again = "" \/ e.res.again = e.res.value)
              \cup CIf("cond" \in DOMAIN e.res,
                       C("T06", "an output carries the same lock", e.res.cond = e.res.value /\ (e.res.json = e.res.value \/ v = <<>>) /\ e.res.inout = e.res.locked)))
Dur(st, e) ==
  LET x == ReadDuration(Utf8(e.text))
  IN CIf(e.text # "", Follows("T06", x, e)
         \cup CIf(Decided(x, e),
            C("T06", "a duration is that many seconds", e.res.secs = ToDec(x.n))
            \cup CIf(BIsSmall(x.n), C("T06", "durations print as they read", e.res.str = DurationText(BInt(x.n)) /\ (x.n # <<>> => e.res.again = e.res.secs)))))

--------------------------------------------------------------------------------
(* Merkle trees *)
Root(h, ls) == ToHex(IF h = "sha" THEN MerkleRoot(Sha256, ls) ELSE MerkleRoot(Blake, ls))
Push(st, e) ==
  C("T07", "the root is that of the chain's tree", e.res.k = "ok" /\ (e.res.root # "" => e.res.root = Root(e.h, Append(st.leaves, Hex(e.leaf)))))
Grow(st, e) ==           \* many leaves, of which the roots at some sizes are recorded
  C("T07", "the root is that of the chain's tree",
    e.res.k = "ok" /\ \A k \in 1..Len(e.res.roots) : e.res.roots[k][2] = Root(e.h, [n \in 1..e.res.roots[k][1] |-> LE(n + e.salt, 4)]))

--------------------------------------------------------------------------------
(* Transactions *)
Extra(tx, x) ==
  CASE x[1] = "none" -> <<>>
    [] x[1] = "pos" -> LE8(x[2])
    [] x[1] = "key" -> LE8(x[2]) \o EncPk(Fmt(tx), x[3])
    [] x[1] = "secret" -> LE8(x[2]) \o EncPk(Fmt(tx), x[3]) \o Hex(x[4])
    [] x[1] = "keyonly" -> EncPk(Fmt(tx), x[2])
    [] x[1] = "role" -> Utf8(x[2])
(* what is to be signed, for the conditions of the inputs: address and extra objects, by the key of the event *)
PairAddr(p) == IF PairKeyOK(p) THEN PkAddr(GetStr(p, "publickey")) ELSE NilAddr
RequestsOf(tx, n, c, j, key(_)) ==
  LET in == Inner(c) ty == CType(in) cd == CData(in) d == FData(j)
      secret == IF Has(d, "secret") THEN Hex(GetStr(d, "secret")) ELSE <<>>
      to(a, x) == <<a, ToHex(SigHash(tx, x))>>
  IN CASE ty \in {0, 1} -> IF PairKeyOK(d) /\ PairAddr(d) = CondAddr(in) THEN <<>> ELSE <<to(CondAddr(in), Pos(n))>>
       [] ty = 2 -> LET a == IF secret = <<>> THEN GetStr(cd, "sender") ELSE GetStr(cd, "receiver")
                    IN IF PairAddr(d) = a THEN <<>> ELSE <<to(a, Pos(n) \o EncPk(Fmt(tx), key(a)) \o secret)>>
       [] ty = 4 -> LET done == {PairAddr(p) : p \in ToSet(GetArr(d, "pairs"))}
                    IN Map(LAMBDA a : to(a, Pos(n) \o EncPk(Fmt(tx), key(a))), SelectSeq(Owners(in), LAMBDA a : a \notin done))
(* the parents of an event are the conditions of coin inputs, of blockstake inputs, and of the rest (minting) *)
Requests(e, tx) ==
  LET key(a) == IF a \in DOMAIN e.keys THEN e.keys[a] ELSE e.other
      of(ins, conds) == Cat([n \in 1..Len(ins) |-> IF n <= Len(conds) /\ conds[n][1] = "o" THEN RequestsOf(tx, n, conds[n], Fulf(ins[n]), key) ELSE <<>>])
      d == TData(tx)
      role(pk, j, r) == IF IsPk(pk) /\ GetStr(j, "signature") = "" THEN <<<<PkAddr(pk), ToHex(SigHash(tx, Utf8(r)))>>>> ELSE <<>>
      own == CASE Ver(tx) \in {128, 129} -> IF e.mint[1] = "o" THEN RequestsOf(tx, 0, e.mint, GetObj(d, "mintfulfillment"), key) ELSE <<>>
               [] Ver(tx) = 144 -> role(GetStr(Ident(tx), "publickey"), Ident(tx), "sender")
               [] Ver(tx) = 145 -> role(e.bots[1], d, "sender")
               [] Ver(tx) = 146 -> role(e.bots[1], GetObj(d, "sender"), "sender") \o role(e.bots[2], GetObj(d, "receiver"), "receiver")
               [] Ver(tx) = 210 -> role(GetStr(d, "pubkey"), d, "registration")
               [] OTHER -> <<>>
  IN of(CoinIns(tx), e.parents) \o of(StakeIns(tx), e.stakes) \o own
(* are all signatures there? "yes", "no", or "may" where signatures are there that do not belong there *)
SlotFull(c, f) ==
  LET in == Inner(c) ty == CType(in) d == FData(f)
      pairs == GetArr(d, "pairs")
      by == {PairAddr(p) : p \in {p \in ToSet(pairs) : PairSigned(p)}}
      need == GetBig(CData(in), "minimumsignaturecount")
  IN IF c[1] # "o" THEN "no"
     ELSE IF ty = 4 THEN (IF ~BLeq(need, BOfInt(Len(pairs))) THEN "no" ELSE IF by \subseteq ToSet(Owners(in)) /\ Cardinality(by) = Len(pairs) THEN "yes" ELSE "may")
     ELSE IF ~PairSigned(d) THEN "no"
     ELSE IF PairKeyOK(d) /\ PairAddr(d) \in (IF ty = 0 THEN {PairAddr(d)} ELSE IF ty = 1 THEN {CondAddr(in)} ELSE {GetStr(CData(in), "sender"), GetStr(CData(in), "receiver")}) THEN "yes" ELSE "may"
Slots(e, tx) ==
  LET d == TData(tx)
      of(ins, conds) == [n \in 1..Len(ins) |-> IF n <= Len(conds) THEN SlotFull(conds[n], Fulf(ins[n])) ELSE "no"]
      sig(j) == IF GetStr(j, "signature") = "" THEN "no" ELSE "yes"
  IN of(CoinIns(tx), e.parents) \o of(StakeIns(tx), e.stakes)
     \o (CASE Ver(tx) \in {128, 129} -> <<SlotFull(e.mint, GetObj(d, "mintfulfillment"))>>
           [] Ver(tx) = 144 -> <<sig(Ident(tx))>>
           [] Ver(tx) \in {145, 210} -> <<sig(d)>>
           [] Ver(tx) = 146 -> <<sig(GetObj(d, "sender")), sig(GetObj(d, "receiver"))>>
           [] OTHER -> <<>>)
Full(e, tx) == LET q == ToSet(Slots(e, tx)) IN IF "no" \in q THEN "no" ELSE IF "may" \in q THEN "may" ELSE "yes"
Prescribed(e, j) ==
  C("T02", "the signing message is the prescribed one", \A k \in 1..Len(e.res.hashes) : e.res.hashes[k] = ToHex(SigHash(j, Extra(j, e.extra[k]))))
  \cup CIf(Done(j),
      C("T02", "the encoding is the prescribed one", e.res.bin = ToHex(BinEncode(j)))
      \cup C("T02", "identifiers of coin outputs", e.res.coins = CoinOutputIds(j))
      \cup C("T02", "identifiers of blockstake outputs", e.res.stakes = [k \in 1..Len(StakeOuts(j)) |-> OutputId(j, "stake", k - 1)]))
Tx(st, e) ==
  LET j == e.json v == Verdict(j) m == Modern(j)
      exact == IsExact(j)
  IN C("T01", "a valid transaction is accepted", exact => Accepted(e))
     \cup C("T01", "what is not a transaction is refused", v = 0 => ~Accepted(e))
     \cup CIf(Accepted(e),
         CIf(v >= 2, C("T01", "it is the transaction that was given", Same(m, Modern(e.res.json))))
         \cup CIf(exact /\ Ver(j) # 0, C("T01", "its JSON is the JSON that was given", e.res.json = j))
         \cup C("T01", "its JSON stays the same when decoded again", e.res.again = e.res.json)
         \cup CIf(Ver(j) # 0, C("T01", "identifiers and signing messages stay the same when decoded again", e.res.kept)))
     \cup CIf(exact /\ Accepted(e),
         Prescribed(e, j) \cup CIf("reqs" \in DOMAIN e.res, C("T02", "everyone who has to sign is asked to sign the prescribed message", e.res.reqs = Requests(e, j)))
         \cup CIf("full" \in DOMAIN e.res /\ Ver(j) # 0, LET q == Full(e, j) IN C("W09", "complete exactly when all signatures are there", q = "may" \/ e.res.full = q)))
     \* what was accepted in another form is signed and identified as what it is
     \cup CIf(~exact /\ Accepted(e) /\ v >= 2, LET q == e.res.json IN CIf(Ver(j) # 0 /\ Ver(q) = Ver(j) /\ IsExact(q), Prescribed(e, q)))
(* JSON text that is no JSON, or not of an object *)
TxText(st, e) == C("T01", "what is not a transaction is refused", ~Accepted(e))

--------------------------------------------------------------------------------
After(st, e) ==
  CASE e.e = "enc" -> (LET w == Written(e) IN IF ~Accepted(e) THEN [st EXCEPT ![e.f] = <<>>] ELSE [st EXCEPT ![e.f] = @ \o Hex(e.res.new)])
    [] e.e = "reset" -> [st EXCEPT ![e.f] = <<>>]
    [] e.e = "tree" -> [st EXCEPT !.leaves = <<>>]
    [] e.e = "push" -> [st EXCEPT !.leaves = Append(@, Hex(e.leaf))]
    [] OTHER -> st
Clauses(st, e) ==
  CASE e.e = "enc" -> Enc(st, e) [] e.e = "long" -> Long(st, e) [] e.e = "data" -> Data(st, e) [] e.e = "alone" -> Alone(st, e)
    [] e.e = "amt" -> Amt(st, e)
    [] e.e = "addr" -> Addr(st, e) [] e.e = "near" -> IF e.kind \in {"name", "net"} THEN NearBot(st, e) ELSE NearBy(st, e) [] e.e = "addrmake" -> AddrMake(st, e) [] e.e = "addreq" -> AddrEq(st, e) [] e.e = "pk" -> Pk(st, e)
    [] e.e = "condaddr" -> CondAddress(st, e) [] e.e = "multi" -> Multi(st, e) [] e.e = "erc" -> Erc(st, e) [] e.e = "erctext" -> ErcText(st, e)
    [] e.e = "lock" -> Lock(st, e) [] e.e = "dur" -> Dur(st, e)
    [] e.e = "push" -> Push(st, e) [] e.e = "grow" -> Grow(st, e)
    [] e.e = "tx" -> Tx(st, e) [] e.e = "txtext" -> TxText(st, e)
    [] OTHER -> {}
Labels(st, e) ==
  IF "res" \notin DOMAIN e THEN {}
  ELSE LET r == IF Accepted(e) THEN " accepted" ELSE " refused"
       IN CASE e.e = "enc" -> {e.f \o " " \o e.op \o " of " \o e.v[1] \o r}
            [] e.e = "amt" -> {"amount " \o e.op \o r} \cup CIf(e.op = "make", {"amount from " \o e.a[1] \o r})
            [] e.e = "lock" -> {"lock from " \o e.form \o r}
            [] e.e = "tx" -> {"transaction " \o ToString(Ver(e.json)) \o " verdict " \o ToString(Verdict(e.json)) \o r}
                             \cup CIf(Verdict(e.json) = 3 /\ ~Done(e.json), {"transaction not complete" \o r})
            [] OTHER -> {e.e \o r}

--------------------------------------------------------------------------------
Ev == Traces[t].events
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Empty0 /\ bad = {} /\ hit = {}
Step ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN
     /\ s' = After(s, e)
     /\ bad' = bad \cup {<<i, x[1], x[2]>> : x \in Clauses(s, e)}
     /\ hit' = hit \cup Labels(s, e)
  /\ i' = i + 1 /\ t' = t
Finish ==
  /\ i = Len(Ev) + 1
  /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> Len(Ev), bad |-> SetToSeq(bad), hit |-> SetToSeq(hit)]))
  /\ i' = i + 1 /\ UNCHANGED <<t, s, bad, hit>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
