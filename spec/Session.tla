------------------------------- MODULE Session -------------------------------
(* The wallet as a state machine: the chain it lives on, the wallets and   *)
(* their keys, and every operation of the interface with what it must do.  *)
(* The module replays histories recorded from the real code (with the real *)
(* signatures, identifiers and amounts), one action per event, and names   *)
(* every rule that an event breaks as <<property, rule>>.                  *)
EXTENDS Policy, Keys, Merging, Json, IOUtils
CONSTANT KeyMax                           \* number of keys computed per wallet beyond those it starts with

Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, i, s, bad, hit
vars == <<t, i, s, bad, hit>>

C(p, n, ok) == IF ok THEN {} ELSE {<<p, n>>}
CIf(cond, set) == IF cond THEN set ELSE {}
NoFn == [x \in {} |-> 0]

--------------------------------------------------------------------------------
(* State *)
Empty0 == [fee |-> <<>>, owner |-> FALSE, tip |-> [h |-> 0, t |-> <<>>, id |-> ""], txs |-> NoFn, outs |-> NoFn, seen |-> {},
           mints |-> <<>>, bots |-> NoFn, erc |-> NoFn, ws |-> NoFn, secrets |-> {}, nonces |-> {}, slots |-> <<>>]

(* the addresses that have a part in a condition *)
Involved(st, c) ==
  LET in == Inner(c) ty == CType(in) d == CData(in)
  IN {CondAddr(c)} \cup (IF ~st.owner THEN {}
       ELSE IF ty = 4 THEN ToSet(Owners(in)) ELSE IF ty = 2 THEN {GetStr(d, "sender"), GetStr(d, "receiver")} ELSE {})
OwnersOf(c) == IF CType(Inner(c)) = 4 THEN ToSet(Owners(Inner(c))) ELSE {}
MintConds(tx) == IF Ver(tx) = 128 THEN {GetObj(TData(tx), "mintcondition")} ELSE {}

(* a transaction enters the chain or, pending, the pool (height -1) *)
PutTx(st, id, tx, h) ==
  LET spent == {ParentId(ci) : ci \in ToSet(CoinIns(tx))} \cap DOMAIN st.outs
      os == CoinOuts(tx)
      ids == CoinOutputIds(tx)
      new == [k \in ToSet(ids) |->
                LET n == CHOOSE n \in 1..Len(ids) : ids[n] = k
                IN [v |-> OutValue(os[n]), c |-> OutCond(os[n]), a |-> CondAddr(OutCond(os[n])), ty |-> CType(Inner(OutCond(os[n]))),
                    l |-> LockOf(OutCond(os[n])), tx |-> id, sp |-> "", own |-> OwnersOf(OutCond(os[n]))]]
      conds == {OutCond(o) : o \in ToSet(os)} \cup MintConds(tx)
      touched == UNION {Involved(st, c) : c \in conds} \cup UNION {Involved(st, st.outs[k].c) : k \in spent}
  IN [st EXCEPT
        !.txs = (id :> [tx |-> tx, h |-> h, a |-> touched]) @@ st.txs,
        !.outs = new @@ [k \in DOMAIN st.outs |-> IF k \in spent /\ st.outs[k].sp = "" THEN [st.outs[k] EXCEPT !.sp = id] ELSE st.outs[k]],
        !.seen = st.seen \cup touched \cup UNION {OwnersOf(c) : c \in conds}]

Confirmed(st, id) == st.txs[id].h # 0 - 1
LockedNow(st, o) == o.l # <<>> /\ LockedAt(o.l, st.tip.h, st.tip.t)
SpentC(st, o) == o.sp # "" /\ Confirmed(st, o.sp)
SpentP(st, o) == o.sp # "" /\ ~Confirmed(st, o.sp)
(* the class of an output: spent, spent by a pending transaction, available, locked, pending available, pending locked *)
Class(st, o) ==
  IF SpentC(st, o) THEN "sp" ELSE IF SpentP(st, o) THEN "us"
  ELSE IF Confirmed(st, o.tx) THEN (IF LockedNow(st, o) THEN "lk" ELSE "av")
  ELSE (IF LockedNow(st, o) THEN "ul" ELSE "ua")

--------------------------------------------------------------------------------
(* Keys: numbered from 0; a wallet scans windows of unused keys behind its last one *)
KeyPub(seed, n) == EdPublic(Blake(seed \o LE8(n)))
Used(st, W) == {n \in 0..(Len(W.all) - 1) : W.all[n + 1] \in st.seen \cup DOMAIN st.erc}
Scan(st, W) == ScanKeys(W, Used(st, W))
RECURSIVE Scanned(_, _)
Scanned(st, W) == LET W2 == Scan(st, W) IN IF W2 = W THEN W ELSE Scanned(st, W2)
NewWallet(st, seed, keys, scan) ==
  LET n == IF keys < 1 THEN 1 ELSE keys
  IN Scan(st, [all |-> [k \in 1..(KeyMax + n) |-> KeyAddr(KeyPub(seed, k - 1))]] @@ Hold(n, scan))
NextAddr(W) == W.all[NextKey(W) + 1]
HeldAddrs(W) == [k \in 1..Len(W.held) |-> W.all[W.held[k] + 1]]
Held(W) == ToSet(HeldAddrs(W))

--------------------------------------------------------------------------------
(* Which outputs may be spent *)
Spendable(st, o) == o.sp = "" /\ ~LockedNow(st, o)
Permitted(o, A, src) ==
  \/ o.ty = 1 /\ o.a \in A /\ (src[1] = "any" \/ o.a \in ToSet(src[2]))
  \/ o.ty = 4 /\ src[1] = "list" /\ o.a \in ToSet(src[2]) /\ o.own \cap A # {}
Eligible(st, A, src) == {k \in DOMAIN st.outs : Spendable(st, st.outs[k]) /\ Permitted(st.outs[k], A, src)}
Val(st) == [k \in DOMAIN st.outs |-> st.outs[k].v]
Feasible(st, A, src, need) == BLeq(need, TopSum(Val(st), Eligible(st, A, src)))

(* Does the refund condition c go where the request says? *)
RefundOK(st, W, c, a) ==
  LET src == a.src IN
  IF a.refund[1] # "none" THEN PaysTo(c, a.refund, NoLock, <<>>, <<>>)
  ELSE /\ CType(c) # 3
       /\ CondAddr(c) = IF src[1] = "list" /\ Len(src[2]) = 1
                           /\ (AddrType(src[2][1]) = 1 \/ \E k \in DOMAIN st.outs : st.outs[k].a = src[2][1])
                        THEN src[2][1] ELSE W.all[1]

--------------------------------------------------------------------------------
(* Signatures *)
SlotErrors(st, tx, k) ==
  LET id == ParentId(CoinIns(tx)[k]) IN
  IF id \notin DOMAIN st.outs THEN {"unknown"}
  ELSE FulfErrors(tx, k, st.outs[id].c, Fulf(CoinIns(tx)[k]), st.tip.h, st.tip.t)
BotKey(st, id) == IF id \in DOMAIN st.bots THEN st.bots[id].key ELSE ""
(* signatures besides those of the inputs: <<key, signature, message>> *)
Extras(st, tx) ==
  LET d == TData(tx) v == Ver(tx)
      row(pk, sig, x) == [pk |-> pk, sig |-> sig, x |-> Utf8(x)]
  IN CASE v = 144 -> <<row(GetStr(Ident(tx), "publickey"), GetStr(Ident(tx), "signature"), "sender")>>
       [] v = 145 -> <<row(BotKey(st, GetInt(d, "id")), GetStr(d, "signature"), "sender")>>
       [] v = 146 -> <<row(BotKey(st, GetInt(GetObj(d, "sender"), "id")), GetStr(GetObj(d, "sender"), "signature"), "sender"),
                       row(BotKey(st, GetInt(GetObj(d, "receiver"), "id")), GetStr(GetObj(d, "receiver"), "signature"), "receiver")>>
       [] v = 210 -> <<row(GetStr(d, "pubkey"), GetStr(d, "signature"), "registration")>>
       [] OTHER -> <<>>
ExtraOK(tx, r) == r.sig # "" /\ IsPk(r.pk) /\ EdVerify(PkBytes(r.pk), SigHash(tx, r.x), Hex(r.sig))
MintNow(st) == st.mints[Len(st.mints)].c
MintFulf(tx) == GetObj(TData(tx), "mintfulfillment")
MintErrors(st, tx) == FulfErrors(tx, 0, MintNow(st), MintFulf(tx), st.tip.h, st.tip.t)
(* is every signature that the transaction needs there, and valid? *)
Complete(st, tx) ==
  /\ \A k \in 1..Len(CoinIns(tx)) : SlotErrors(st, tx, k) = {}
  /\ \A r \in ToSet(Extras(st, tx)) : ExtraOK(tx, r)
  /\ Ver(tx) \in {128, 129} => MintErrors(st, tx) = {}

(* What a wallet with addresses A (H before the operation) made of fulfillment b of condition c (unsigned or signed by others): *)
(* j is the result; were and errs are what was wrong with it before and is now.                        *)
Signed(j) == FType(j) \in {1, 2} /\ PairSigned(FData(j))
Pairs(j) == SelectSeq(GetArr(FData(j), "pairs"), PairSigned)
Signer(p) == IF PairKeyOK(p) THEN PkAddr(GetStr(p, "publickey")) ELSE ""
SlotSigned(c, b, j, were, errs, H, A) ==
  LET ty == CType(Inner(c)) IN
  IF ty = 4 THEN
    LET ps == Pairs(j) qs == Pairs(b)
        can == (OwnersOf(c) \cap H) \ {Signer(q) : q \in ToSet(qs)}
        new == SelectSeq(ps, LAMBDA p : p \notin ToSet(qs))
        need == MinSigs(Inner(c))
        atleast == Len(qs) + Cardinality(can)
    IN C("W08", "signatures that were there are kept", ToSet(qs) \subseteq ToSet(ps) /\ Len(ps) = Len(qs) + Len(new))
       \cup C("W08", "only owners sign, once, validly", errs \subseteq were \cup {"unsigned"})
       \cup C("W08", "signs with its own keys", \A p \in ToSet(new) : Signer(p) \in A)
       \cup C("W09", "signs where it can", Len(ps) >= IF atleast < need THEN atleast ELSE need)
  ELSE IF Signed(b) /\ b = j THEN {}
  ELSE IF Signed(b) /\ "owner" \notin were THEN C("W08", "signatures that were there are kept", b = j)
  ELSE IF Signed(j) THEN C("W08", "a valid signature by the owner", errs = {})
                         \cup C("W08", "signs with its own keys", Signer(FData(j)) \in A \cup {""})
  ELSE C("W09", "signs where it can", ~(ty = 1 /\ GetStr(CData(Inner(c)), "unlockhash") \in H))
ExtraSigned(tx, b, r, H, A) ==                    \* b, r: the row before and after
  IF b # "" THEN C("W08", "signatures that were there are kept", r.sig = b)
  ELSE IF r.sig # "" THEN C("W08", "a valid signature by the owner", ExtraOK(tx, r)) \cup C("W08", "signs with its own keys", IsPk(r.pk) /\ PkAddr(r.pk) \in A)
  ELSE C("W09", "signs where it can", ~(IsPk(r.pk) /\ PkAddr(r.pk) \in H))
NoFulf == <<"o", [type |-> <<"i", "1">>, data |-> Empty]>>
NewFulf(c) == IF CType(Inner(c)) = 4 THEN <<"o", [type |-> <<"i", "3">>, data |-> <<"o", [pairs |-> <<"a", <<>>>>]>>]>> ELSE NoFulf

(* signatures of a new transaction *)
FreshSignatures(st, tx, H, A) ==
  UNION {LET id == ParentId(CoinIns(tx)[k]) IN
         IF id \notin DOMAIN st.outs THEN {}
         ELSE SlotSigned(st.outs[id].c, NewFulf(st.outs[id].c), Fulf(CoinIns(tx)[k]), {}, SlotErrors(st, tx, k) \ {"locked"}, H, A)
         : k \in 1..Len(CoinIns(tx))}
  \cup UNION {ExtraSigned(tx, "", r, H, A) : r \in ToSet(Extras(st, tx))}
  \cup CIf(Ver(tx) \in {128, 129}, SlotSigned(MintNow(st), NewFulf(MintNow(st)), MintFulf(tx), {}, MintErrors(st, tx), H, A))

(* what is left of a transaction without its signatures *)
Stripped(tx) ==
  LET d == TData(tx)
      fields == DOMAIN d[2] \ {"coininputs", "mintfulfillment", "identification", "signature", "sender", "receiver"}
      some == {k \in fields : Has(d, k)}
  IN <<Ver(tx), [k \in some |-> d[2][k]], [k \in 1..Len(CoinIns(tx)) |-> ParentId(CoinIns(tx)[k])],
       GetStr(Ident(tx), "publickey"), GetInt(GetObj(d, "sender"), "id"), GetInt(GetObj(d, "receiver"), "id")>>

--------------------------------------------------------------------------------
(* Submission *)
Accepted(e) == SelectSeq(e.posts, LAMBDA p : p.ok)
Refused(e) == \E p \in ToSet(e.posts) : ~p.ok
Submission(st, e, asked, complete) ==          \* complete: of the resulting transaction
  C("W09", "submitted exactly when complete and asked for", e.res.sub = (asked /\ complete))
  \cup C("W09", "the result is truthful",
         IF e.res.sub THEN Len(e.posts) = 1 /\ e.posts[1].ok /\ e.posts[1].tx = e.res.tx /\ e.posts[1].id = e.res.id
         ELSE e.posts = <<>>)
Failed(e) == C("W03", "a failed request submits nothing", Accepted(e) = <<>> /\ (Refused(e) \/ e.posts = <<>>))

--------------------------------------------------------------------------------
(* Requests that are paid for. q: the requested outputs; xs: what is paid besides outputs and fee *)
DeclaredExtra(tx) ==
  LET d == TData(tx) v == Ver(tx) IN
  CASE v = 144 -> RegistrationFee(BotMonths(tx), Len(BotNamesAdd(tx)))
    [] v = 145 -> UpdateFee(BotMonths(tx), Len(BotNamesAdd(tx)), BotAddrsAdd(tx) # <<>> \/ BotAddrsDel(tx) # <<>>)
    [] v = 146 -> TransferFee(Len(BotNamesAdd(tx)))
    [] v = 208 -> GetAmount(d, "value")
    [] v = 210 -> GetAmount(d, "regfee")
    [] OTHER -> <<>>
Total(q, xs, fee) == BAdd(BAdd(BSum(Map(LAMBDA o : Dec(o.v), q)), xs), fee)

PaidTx(st, W, A, e, tx, ver, positions, extra) ==
  LET ids == Map(ParentId, CoinIns(tx))
      known == ToSet(ids) \subseteq DOMAIN st.outs
      inSum == BSum(Map(LAMBDA k : st.outs[k].v, ids))
      outSum == BSum(Map(OutValue, CoinOuts(tx)))
      fees == FeeList(tx)
  IN C("W01", "the kind of transaction that was asked for", Ver(tx) = ver /\ NoStakes(tx))
     \cup C("W01", "inputs are distinct", Cardinality(ToSet(ids)) = Len(ids))
     \cup C("W01", "the minimum fee is paid", BSum(fees) = st.fee)
     \cup CIf(known, C(IF ver \in 144..146 THEN "B01" ELSE "W01", "inputs equal outputs, fee and other payments",
                       inSum = BAdd(BAdd(outSum, BSum(fees)), extra)))
     \cup CIf(known, C("W01", "value is conserved", inSum = BAdd(BAdd(outSum, BSum(fees)), DeclaredExtra(tx))))
     \cup C("W01", "exactly the requested outputs", positions # {})
     \cup C("W01", "the remainder goes to the refund address",
            positions = {} \/ \E k \in positions : k = 0 \/ RefundOK(st, W, OutCond(CoinOuts(tx)[k]), e.a))
     \cup C("W01", "no refund of nothing", \A o \in ToSet(CoinOuts(tx)) : OutValue(o) # <<>>)
     \cup C("W01", "exactly the given data", ver = 1 => ArbData(tx) = Hex(e.a.data))
     \cup C("W02", "inputs exist", known)
     \cup CIf(known,
          C("W02", "inputs are unspent", \A k \in ToSet(ids) : st.outs[k].sp = "")
          \cup C("W02", "inputs are not locked", \A k \in ToSet(ids) : ~LockedNow(st, st.outs[k]))
          \cup C("W02", "inputs are permitted", \A k \in ToSet(ids) : Permitted(st.outs[k], A, e.a.src)))
     \cup C("W03", "at most 99 inputs", Len(ids) <= MaxInputs)
     \cup FreshSignatures(st, tx, Held(W), A)

(* the outcome of a paid request: need is what it costs in all; err names expected errors before funding (or "") *)
Paid(st, W, A, e, need, ver, positions(_), extra, asked, err) ==
  IF e.res.k = "err" THEN
    Failed(e) \cup
    (IF e.a.bad # "" THEN {}
     ELSE IF err # "" THEN C("W03", "fails with the error of its kind", e.res.err = err)
     ELSE IF Feasible(st, Held(W), e.a.src, need) THEN C("W03", "succeeds when funds suffice", Refused(e))
     ELSE C("W03", "fails with the insufficient funds error", e.res.err = "InsufficientFunds" \/ Feasible(st, A, e.a.src, need)))
  ELSE IF e.a.bad # "" \/ err # "" THEN C("W03", "an invalid request fails", FALSE)
  ELSE IF ~TxOK(e.res.tx) THEN C("W01", "a well-formed transaction", FALSE) \cup C("T01", "a well-formed transaction", FALSE)
  ELSE PaidTx(st, W, A, e, e.res.tx, ver, positions(e.res.tx), extra)
       \cup Submission(st, e, asked, Complete(st, e.res.tx))

RefundOnly(tx) == IF Len(CoinOuts(tx)) = 0 THEN {0} ELSE IF Len(CoinOuts(tx)) = 1 THEN {1} ELSE {}
AnyZero(q) == \E o \in ToSet(q) : Dec(o.v) = <<>>
Send(st, W, A, e) ==
  Paid(st, W, A, e, Total(e.a.outs, <<>>, st.fee), 1,
       LAMBDA tx : RefundPositions(CoinOuts(tx), e.a.outs, Dec(e.t0), Dec(e.t1)), <<>>, TRUE,
       IF AnyZero(e.a.outs) THEN "ValueError" ELSE "")

(* ERC20 *)
Erc20Send(st, W, A, e) ==
  Paid(st, W, A, e, Total(<<>>, Dec(e.a.v), st.fee), 208, RefundOnly, Dec(e.a.v), TRUE, IF Dec(e.a.v) = <<>> THEN "ValueError" ELSE "")
  \cup CIf(e.res.k = "ok" /\ TxOK(e.res.tx),
        C("E01", "destroys exactly the requested amount", GetAmount(TData(e.res.tx), "value") = Dec(e.a.v))
        \cup C("E01", "for exactly the given address", ERC20Bytes(GetStr(TData(e.res.tx), "address"), 20) = ERC20Bytes(e.a.to, 20)))
Said(e, err) == e.res.k = "err" /\ e.res.err = err
Erc20Register(st, W, A, e) ==
  LET of == e.a.of
      H == HeldAddrs(Scanned(st, W))
      err == CASE of[1] = "new" -> ""
               [] of[1] = "index" -> IF of[2] >= 0 /\ of[2] < Len(H) THEN "" ELSE "ValueError"
               [] of[1] = "addr" -> IF of[2] \in Held(W) \/ (of[2] \in A /\ ~Said(e, "ERC20RegistrationForbidden")) THEN "" ELSE "ERC20RegistrationForbidden"
  IN Paid(st, W, A, e, Total(<<>>, ERC20RegistrationFee, st.fee), 210, RefundOnly, ERC20RegistrationFee, TRUE, err)
     \cup CIf(e.res.k = "ok" /\ err = "" /\ TxOK(e.res.tx),
           LET d == TData(e.res.tx) a == PkAddr(GetStr(d, "pubkey")) IN
           C("E01", "pays exactly the registration fee", GetAmount(d, "regfee") = ERC20RegistrationFee)
           \cup C("E01", "registers the address that was asked for",
                  CASE of[1] = "new" -> a = NextAddr(Scanned(st, W)) \/ a = NextAddr(W)
                    [] of[1] = "index" -> a = H[of[2] + 1]
                    [] of[1] = "addr" -> a = of[2]))
Erc20Info(st, a, r) == r.tft = a /\ ERC20Bytes(r.erc, 20) = ERC20Of(a) /\ r.conf = st.erc[a]
Erc20Get(st, W, A, e) ==
  LET of == e.a.of
      H == HeldAddrs(Scanned(st, W))
      known == CASE of[1] = "none" -> TRUE [] of[1] = "index" -> of[2] >= 0 /\ of[2] < Len(H) [] of[1] = "addr" -> of[2] \in Held(W) \/ (of[2] \in A /\ ~Said(e, "AddressNotInWallet"))
      a == CASE of[1] = "none" -> W.all[1] [] of[1] = "index" -> H[of[2] + 1] [] of[1] = "addr" -> of[2]
  IN IF ~known THEN C("E01", "only addresses of the wallet", e.res.k = "err" /\ e.res.err = IF of[1] = "addr" THEN "AddressNotInWallet" ELSE "ValueError")
     ELSE IF a \notin DOMAIN st.erc THEN C("E01", "only registered addresses", e.res.k = "err")
     ELSE C("E01", "the registration as reported", e.res.k = "ok" /\ Erc20Info(st, a, e.res))
Erc20All(st, W, A, e) ==
  IF e.res.k = "err" THEN C("E01", "registrations are listed", FALSE)
  ELSE C("E01", "every registered address of the wallet, once",
         Len(e.res.infos) = Cardinality(A \cap DOMAIN st.erc) /\ {x.tft : x \in ToSet(e.res.infos)} = A \cap DOMAIN st.erc)
       \cup C("E01", "the registration as reported", \A x \in ToSet(e.res.infos) : x.tft \in DOMAIN st.erc => Erc20Info(st, x.tft, x))

(* 3Bots *)
SameStrs(s1, s2) == s1 = s2
BotNew(st, W, A, e) ==
  LET H == HeldAddrs(Scanned(st, W))
      err == IF e.a.key >= 0 /\ e.a.key >= Len(H) THEN "ValueError" ELSE ""
      fee == RegistrationFee(e.a.months, Len(e.a.names))
  IN Paid(st, W, A, e, Total(<<>>, fee, st.fee), 144, RefundOnly, fee, TRUE, IF Feasible(st, A, e.a.src, BAdd(fee, st.fee)) THEN err ELSE "")
     \cup CIf(e.res.k = "ok", C("B02", "breaking the limits is rejected", e.a.bad = ""))
     \cup CIf(e.res.k = "ok" /\ e.a.bad = "" /\ TxOK(e.res.tx) /\ Ver(e.res.tx) = 144,
           LET tx == e.res.tx a == PkAddr(GetStr(Ident(tx), "publickey")) IN
           C("B02", "exactly the requested months, names and addresses",
                BotMonths(tx) = e.a.months /\ BotNamesAdd(tx) = e.a.names /\ BotAddrsAdd(tx) = e.a.addrs)
           \cup C("B02", "the key that was asked for",
                IF e.a.key >= 0 THEN a = H[e.a.key + 1] ELSE a = NextAddr(Scanned(st, W)) \/ a = NextAddr(W)))
Active(st, id) == BLt(st.tip.t, st.bots[id].exp)
BotUpdate(st, W, A, e) ==
  LET err == IF e.a.id \notin DOMAIN st.bots THEN "ThreeBotNotFound"
             ELSE IF ~Active(st, e.a.id) /\ e.a.months = 0 THEN "ThreeBotInactive" ELSE ""
      fee == UpdateFee(e.a.months, Len(e.a.nadd), e.a.aadd # <<>> \/ e.a.adel # <<>>)
  IN Paid(st, W, A, e, Total(<<>>, fee, st.fee), 145, RefundOnly, fee, TRUE, err)
     \cup CIf(e.res.k = "ok", C("B02", "breaking the limits is rejected", e.a.bad = "" /\ err = ""))
     \cup CIf(e.res.k = "ok" /\ e.a.bad = "" /\ err = "" /\ TxOK(e.res.tx) /\ Ver(e.res.tx) = 145,
           LET tx == e.res.tx IN
           C("B02", "exactly the requested changes",
             GetInt(TData(tx), "id") = e.a.id /\ BotMonths(tx) = e.a.months /\ BotNamesAdd(tx) = e.a.nadd /\ BotNamesDel(tx) = e.a.ndel
             /\ BotAddrsAdd(tx) = e.a.aadd /\ BotAddrsDel(tx) = e.a.adel))
BotTransfer(st, W, A, e) ==
  LET known == e.a.id \in DOMAIN st.bots /\ e.a.to \in DOMAIN st.bots
      err == IF e.a.id \notin DOMAIN st.bots THEN "ThreeBotNotFound"
             ELSE IF ~Active(st, e.a.id) THEN "ThreeBotInactive"
             ELSE IF e.a.to \notin DOMAIN st.bots THEN "ThreeBotNotFound"
             ELSE IF ~Active(st, e.a.to) THEN "ThreeBotInactive" ELSE ""
      fee == TransferFee(Len(e.a.names))
  IN Paid(st, W, A, e, Total(<<>>, fee, st.fee), 146, RefundOnly, fee, TRUE, err)
     \cup CIf(e.res.k = "ok", C("B02", "breaking the limits is rejected", e.a.bad = "" /\ err = ""))
     \cup CIf(e.res.k = "ok" /\ e.a.bad = "" /\ err = "" /\ TxOK(e.res.tx) /\ Ver(e.res.tx) = 146,
           LET d == TData(e.res.tx) IN
           C("B02", "exactly the requested transfer",
             GetInt(GetObj(d, "sender"), "id") = e.a.id /\ GetInt(GetObj(d, "receiver"), "id") = e.a.to /\ BotNamesAdd(e.res.tx) = e.a.names))
BotGet(st, e) ==
  IF e.a.id \notin DOMAIN st.bots THEN C("B02", "an unknown bot is not found", e.res.k = "err" /\ e.res.err = "ThreeBotNotFound")
  ELSE LET b == st.bots[e.a.id] IN
       C("B02", "the record as reported", e.res.k = "ok" /\ e.res.id = e.a.id /\ e.res.names = b.names /\ e.res.addrs = b.addrs
                                          /\ e.res.key = b.key /\ IsDec(e.res.exp) /\ Dec(e.res.exp) = b.exp)

(* Minting: no inputs, so nothing is funded *)
Mint(st, W, A, e, ver, contents(_), err) ==
  IF e.res.k = "err" THEN Failed(e) \cup CIf(e.a.bad = "", C("M01", "minting works", err # "" \/ Refused(e)))
  ELSE IF e.a.bad # "" \/ err # "" THEN C("M01", "an invalid request fails", FALSE)
  ELSE IF ~TxOK(e.res.tx) \/ Ver(e.res.tx) # ver THEN C("M01", "a well-formed transaction", FALSE)
  ELSE LET tx == e.res.tx IN
       C("M01", "exactly what was requested", contents(tx))
       \cup C("M01", "the minimum fee", FeeList(tx) = <<st.fee>>)
       \cup C("M01", "exactly the given data", ArbData(tx) = Hex(e.a.data))
       \cup C("M01", "a fresh nonce", Len(Nonce(tx)) = 8 /\ Nonce(tx) \notin st.nonces)
       \cup C("M01", "no inputs", ~Has(TData(tx), "coininputs"))
       \cup C("M01", "submitted only when the current minters signed", e.res.sub = (MintErrors(st, tx) = {}))
       \cup FreshSignatures(st, tx, Held(W), A)
       \cup Submission(st, e, TRUE, Complete(st, tx))
MintDefine(st, W, A, e) ==
  Mint(st, W, A, e, 128, LAMBDA tx : PaysTo(GetObj(TData(tx), "mintcondition"), e.a.r, NoLock, <<>>, <<>>),
       IF e.a.r[1] = "nil" THEN "ValueError" ELSE "")
MintCoins(st, W, A, e) ==
  Mint(st, W, A, e, 129, LAMBDA tx : Assignable(CoinOuts(tx), e.a.outs, Dec(e.t0), Dec(e.t1)), IF AnyZero(e.a.outs) THEN "ValueError" ELSE "")

--------------------------------------------------------------------------------
(* Completing a transaction *)
Resolved(st, A, id) ==
  id \in DOMAIN st.outs /\ LET o == st.outs[id] IN Spendable(st, o) /\ ((o.ty = 1 /\ o.a \in A) \/ (o.ty = 4 /\ o.own \cap A # {}))
Sign(st, W, A, e) ==
  LET b == e.a.tx r == e.res.tx
      unknownBot == Ver(b) \in {145, 146} /\ \E x \in ToSet(Extras(st, b)) : x.pk = ""
      outdated == Ver(b) \in {128, 129} /\ "kind" \in MintErrors(st, b)    \* made for minters of another kind
  IN
  IF e.res.k = "err" THEN C("W09", "a transaction can be completed", Refused(e) \/ unknownBot \/ outdated \/ e.a.bad # "")
                          \cup C("W09", "a failed submission is not one", Accepted(e) = <<>>)
  ELSE IF ~TxOK(r) \/ Stripped(r) # Stripped(b) THEN C("W08", "the contents are unchanged", FALSE) \cup C("W09", "the contents are unchanged", FALSE)
  ELSE LET n == Len(CoinIns(b))
           xs == Extras(st, r) ys == Extras(st, b)
           all == \A k \in 1..n : Resolved(st, A, ParentId(CoinIns(b)[k]))
           before == Complete(st, b) after == Complete(st, r)
       IN UNION {LET id == ParentId(CoinIns(b)[k]) IN
                 IF Resolved(st, A, id)
                 THEN SlotSigned(st.outs[id].c, Fulf(CoinIns(b)[k]), Fulf(CoinIns(r)[k]), SlotErrors(st, b, k), SlotErrors(st, r, k), Held(W), A)
                 ELSE IF EncFulf("sia", Fulf(CoinIns(b)[k])) = EncFulf("sia", Fulf(CoinIns(r)[k])) THEN {}
                 ELSE IF id \in ToSet(e.a.known) /\ id \in DOMAIN st.outs    \* the transaction itself still says what it spends
                 THEN SlotSigned(st.outs[id].c, Fulf(CoinIns(b)[k]), Fulf(CoinIns(r)[k]), SlotErrors(st, b, k), SlotErrors(st, r, k), Held(W), A)
                 ELSE C("W08", "inputs that are not its own stay untouched", FALSE) : k \in 1..n}
          \cup UNION {ExtraSigned(r, ys[k].sig, xs[k], Held(W), A) : k \in 1..Len(xs)}
          \cup CIf(Ver(b) \in {128, 129}, SlotSigned(MintNow(st), MintFulf(b), MintFulf(r), MintErrors(st, b), MintErrors(st, r), Held(W), A))
          \cup (IF before \/ (after /\ ~all) THEN C("W09", "the result is truthful", e.res.sub = (Accepted(e) # <<>>))
                ELSE Submission(st, e, e.a.submit, after))
          \cup CIf(~before, C("W09", "it says whether it signed", e.res.signed = (IdInput(b) # IdInput(r))))
          \cup CIf(Ver(b) \in {128, 129},
                  C("M01", "minters sign, and their signatures stay",
                    SlotSigned(MintNow(st), MintFulf(b), MintFulf(r), MintErrors(st, b), MintErrors(st, r), Held(W), A) = {}))
          \cup CIf(Ver(b) \in {128, 129} /\ ~before,
                  C("M01", "submitted when, and only when, the current minters signed", e.res.sub = (e.a.submit /\ MintErrors(st, r) = {})))

--------------------------------------------------------------------------------
(* Balances *)
Ids(l) == [k \in 1..Len(l) |-> l[k][1]]
ListOK(st, l, S) ==
  /\ Len(l) = Cardinality(S) /\ ToSet(Ids(l)) = S
  /\ \A x \in ToSet(l) : x[1] \in S => IsDec(x[2]) /\ Dec(x[2]) = st.outs[x[1]].v
SumIs(st, d, S) == IsDec(d) /\ Dec(d) = SumOver(Val(st), S)
(* the classes in report r of the outputs in S *)
Classes(st, p, r, S) ==
  LET of(c) == {k \in S : Class(st, st.outs[k]) = c} IN
  C(p, "available outputs", ListOK(st, r.av, of("av"))) \cup C(p, "spent outputs", ListOK(st, r.sp, of("sp")))
  \cup C(p, "pending outputs", ListOK(st, r.ua, of("ua")) /\ ListOK(st, r.ul, of("ul")))
  \cup C(p, "outputs spent by pending transactions", ListOK(st, r.us, of("us")))
  \cup C(p, "totals", SumIs(st, r.tav, of("av")) /\ SumIs(st, r.tlk, of("lk")) /\ SumIs(st, r.tua, of("ua")) /\ SumIs(st, r.tul, of("ul")))
(* the amounts in the printed form of a balance *)
AmountsOf == INSTANCE Amounts
Printed(st, S) ==
  LET sum(c) == SumOver(Val(st), {k \in S : Class(st, st.outs[k]) = c})
      text(n) == AmountsOf!AmountText(n)
      two(c, d) == <<text(sum(c)), text(sum(d))>>
  IN two("av", "lk") \o (IF sum("ua") = <<>> /\ sum("ul") = <<>> THEN <<>> ELSE two("ua", "ul"))
     \o (IF sum("us") = <<>> THEN <<>> ELSE <<text(sum("us"))>>)
PrintedOf(st, S) == IF \E k \in S : Class(st, st.outs[k]) \in {"av", "lk", "ua", "ul"} THEN Printed(st, S) ELSE <<>>
BalanceFor(st, A, e) ==
  LET r == e.res
      mine == {k \in DOMAIN st.outs : st.outs[k].ty # 4 /\ st.outs[k].a \in A}
      shared == {k \in DOMAIN st.outs : st.outs[k].ty = 4 /\ st.outs[k].own \cap A # {}}
      maddrs == {st.outs[k].a : k \in shared}
      rep == {m.addr : m \in ToSet(r.m)}
  IN Classes(st, "W04", r.p, mine)
     \cup C("W04", "the addresses with outputs", ToSet(r.p.addrs) = {st.outs[k].a : k \in mine} /\ Cardinality(ToSet(r.p.addrs)) = Len(r.p.addrs))
     \cup C("W04", "the printed amounts", e.res.said = Printed(st, mine) \o FlattenSeq([k \in 1..Len(r.m) |-> PrintedOf(st, {o \in DOMAIN st.outs : st.outs[o].ty = 4 /\ st.outs[o].a = r.m[k].addr})]))
     \cup C("W04", "the chain the balance was taken at", r.h = st.tip.h /\ IsDec(r.t) /\ Dec(r.t) = st.tip.t /\ r.id = st.tip.id)
     \cup C("W05", "every multisig wallet is reported, once", maddrs \subseteq rep /\ Cardinality(rep) = Len(r.m) /\ ToSet(r.maddrs) = rep /\ ToSet(r.wide) = rep)
     \cup UNION {
          C("W05", "owners, signature count and address",
             /\ m.key = m.addr /\ \A o \in ToSet(m.owners) : IsAddr(o)
             /\ MultiAddr(m.owners, m.n) = m.addr /\ ToSet(m.owners) \cap A # {})
          \cup Classes(st, "W05", m, {k \in DOMAIN st.outs : st.outs[k].ty = 4 /\ st.outs[k].a = m.addr}) : m \in ToSet(r.m)}
RECURSIVE ScanChain(_, _)
ScanChain(st, W) == LET W2 == Scan(st, W) IN IF W2 = W THEN {W} ELSE {W2} \cup ScanChain(st, W2)
Balance(st, W, A, e) ==
  IF e.res.k = "err" THEN C("W04", "the balance is reported", FALSE)
  ELSE LET final == BalanceFor(st, A, e)
       IN IF final = {} \/ \E w \in ScanChain(st, W) : BalanceFor(st, Held(w), e) = {} THEN {} ELSE final

(* Balances as values that are kept, changed and merged (slots) *)
StateOf(st, o) == CASE Class(st, o) \in {"ua", "ul"} -> 1 [] Class(st, o) \in {"av", "lk"} -> 2 [] Class(st, o) = "us" -> 3 [] OTHER -> 4
Known(st, B) == [k \in {k \in DOMAIN st.outs : st.outs[k].a \in B} |-> StateOf(st, st.outs[k])]
Snapped(st, e) ==                            \* what the new balance must contain
  LET r == e.res.r
      at(b, B) == [b EXCEPT !.h = st.tip.h, !.id = st.tip.id, !.t = BInt(st.tip.t), !.out = Known(st, B), !.addrs = {a \in B : \E k \in DOMAIN st.outs : st.outs[k].a = a}]
      moved(b) == [b EXCEPT !.h = @ + e.a.dh, !.t = @ + e.a.dt]
      sub == CASE e.a.from = "new" -> [at(EmptyB(r.k, ""), {}) EXCEPT !.h = 0, !.t = 0, !.id = ""]
               [] e.a.from = "addr" -> IF r.k = "M" THEN at(EmptyB("M", e.a.addr), {e.a.addr}) ELSE at(EmptyB("W", ""), {e.a.addr})
               [] OTHER -> [at(EmptyB("S", ""), ToSet(e.addrs)) EXCEPT !.ws = [m \in {x.addr : x \in ToSet(r.ws)} |-> at(EmptyB("M", m), {m})]]
  IN moved(sub)
LockedFor(st, b, k) == b.h > 0 /\ b.t > 0 /\ st.outs[k].l # <<>> /\ LockedAt(st.outs[k].l, b.h, BOfInt(b.t))
NoBlock == "0000000000000000000000000000000000000000000000000000000000000000"
ReportIs(st, b, r) ==
  LET of(n, lk) == {k \in DOMAIN b.out : b.out[k] = n /\ (n > 2 \/ LockedFor(st, b, k) = lk)}
  IN /\ ListOK(st, r.av, of(2, FALSE)) /\ ListOK(st, r.ua, of(1, FALSE)) /\ ListOK(st, r.ul, of(1, TRUE))
     /\ ListOK(st, r.us, of(3, FALSE)) /\ ListOK(st, r.sp, of(4, FALSE))
     /\ SumIs(st, r.tav, of(2, FALSE)) /\ SumIs(st, r.tlk, of(2, TRUE)) /\ SumIs(st, r.tua, of(1, FALSE)) /\ SumIs(st, r.tul, of(1, TRUE))
     /\ r.h = b.h /\ Dec(r.t) = BOfInt(b.t)
     /\ b.id = "?" \/ r.id = (IF b.id = "" THEN NoBlock ELSE b.id)
SlotIs(st, b, r) ==
  /\ r.k = b.k /\ ReportIs(st, b, r)
  /\ ToSet(r.addrs) = b.addrs /\ Len(r.addrs) = Cardinality(b.addrs)
  /\ (b.k = "M" => r.addr = b.m /\ MultiAddr(r.owners, r.n) = b.m)
  /\ (b.k = "S" => /\ {m.addr : m \in ToSet(r.ws)} = DOMAIN b.ws /\ Len(r.ws) = Cardinality(DOMAIN b.ws)
                   /\ \A m \in ToSet(r.ws) : m.key = m.addr /\ MultiAddr(m.owners, m.n) = m.addr /\ ReportIs(st, b.ws[m.addr], m))
Lost == EmptyB("?", "")                      \* nothing is known about it any more
Slots(st, e) ==                              \* the slots after the operation
  CASE e.op = "snap" -> IF e.res.k = "err" THEN st.slots ELSE Append(st.slots, Snapped(st, e))
    [] e.op = "put" -> IF st.slots[e.a.i].k = "?" THEN st.slots
                       ELSE [st.slots EXCEPT ![e.a.i] = Put(@, e.a.id, st.outs[e.a.id].a, st.outs[e.a.id].ty = 4, IF e.a.conf THEN (IF e.a.spent THEN 4 ELSE 2) ELSE (IF e.a.spent THEN 3 ELSE 1))]
    [] e.op = "merge" ->
         LET a == st.slots[e.a.i] b == st.slots[e.a.j] r == Add(a, b) IN
         [st.slots EXCEPT ![e.a.i] = IF a.k = "?" \/ b.k = "?" \/ r.is = "open" THEN Lost
                                     ELSE IF r.is = "ok" THEN r.b ELSE IF Half(a, b) THEN Lost ELSE a]
    [] OTHER -> st.slots
SlotClauses(st, st2, e) ==
  LET sl == st2.slots
      ok(n) == sl[n].k = "?" \/ SlotIs(st2, sl[n], e.all[n])
  IN C("W06", "merging works", e.op = "snap" \/ e.res.k = "ok" \/ st.slots[e.a.i].k = "?" \/ st.slots[e.a.j].k = "?" \/ Add(st.slots[e.a.i], st.slots[e.a.j]).is # "ok")
     \cup CIf(e.op = "merge", C("W06", "balances that do not go together are refused",
            e.res.k = "err" \/ st.slots[e.a.i].k = "?" \/ st.slots[e.a.j].k = "?" \/ Add(st.slots[e.a.i], st.slots[e.a.j]).is # "bad"))
     \cup CIf(Len(e.all) = Len(sl),
          CIf(e.op = "merge", C("W06", "the union of both, each output in its most advanced state", ok(e.a.i)))
          \cup CIf(e.op = "put", C("W06", "an output that is added keeps its most advanced state", ok(e.a.i)))
          \cup CIf(e.op = "snap" /\ e.res.k = "ok", C("W04", "the balance of an address or wallet", ok(Len(sl))) )
          \cup C("W06", "other balances are not modified", \A n \in 1..Len(sl) : (e.op # "snap" /\ n = e.a.i) \/ (e.op = "snap" /\ n = Len(sl)) \/ ok(n)))
     \cup C("HARNESS", "slots", Len(e.all) = Len(sl))

(* Draining *)
RECURSIVE CeilDiv(_, _)
CeilDiv(n, d) == (n + d - 1) \div d
Drain(st, W, A, e) ==
  IF e.res.k = "err" THEN C("W10", "draining works", FALSE)
  ELSE LET ms == e.a.which[1] = "m"
           S == {k \in DOMAIN st.outs : LET o == st.outs[k] IN
                   /\ IF ms THEN o.a = e.a.which[2] ELSE o.ty # 4 /\ o.a \in A
                   /\ Class(st, o) \in IF e.a.unconf THEN {"av", "ua"} ELSE {"av"}}
           txs == e.res.txs
           wellFormed == \A x \in ToSet(txs) : TxOK(x) /\ Ver(x) = 1 /\ NoStakes(x)
           ids == Cat(Map(LAMBDA x : Map(ParentId, CoinIns(x)), txs))
           left == S \ ToSet(ids)
       IN IF ~wellFormed THEN C("W10", "well-formed transactions", FALSE)
          ELSE C("W10", "each output at most once", Cardinality(ToSet(ids)) = Len(ids))
               \cup C("W10", "only outputs that can be spent", ToSet(ids) \subseteq S)
               \cup C("W10", "every output that is worth it",
                      LET k == CeilDiv(Cardinality(left), MaxInputs) IN BLeq(SumOver(Val(st), left), BMul(st.fee, k)))
               \cup C("W10", "at most 99 inputs", \A x \in ToSet(txs) : Len(CoinIns(x)) \in 1..MaxInputs)
               \cup CIf(ToSet(ids) \subseteq S,
                    UNION {C("W10", "everything minus one fee goes to the recipient",
                             /\ FeeList(x) = <<st.fee>> /\ Len(CoinOuts(x)) = 1
                             /\ BAdd(OutValue(CoinOuts(x)[1]), st.fee) = BSum(Map(LAMBDA ci : st.outs[ParentId(ci)].v, CoinIns(x)))
                             /\ PaysTo(OutCond(CoinOuts(x)[1]), e.a.r, e.a.l, Dec(e.t0), Dec(e.t1)))
                           \cup C("W10", "with the given data", ArbData(x) = Hex(e.a.data)) : x \in ToSet(txs)})
               \cup C("W10", "nothing is submitted yet", e.posts = <<>>)

--------------------------------------------------------------------------------
(* Atomic swaps *)
Hours(n) == BMul(BOfInt(3600), n)
RefundTime(st, a) ==
  CASE a.time[1] = "default" -> BAdd(st.tip.t, Hours(IF a.part THEN 24 ELSE 48))
    [] a.time[1] = "dur" -> BAdd(st.tip.t, Dec(a.time[2]))
    [] a.time[1] = "abs" -> Dec(a.time[2])
SwapSender(st, W, a) ==
  IF a.refund[1] = "addr" THEN a.refund[2]
  ELSE IF a.refund[1] = "none" /\ a.src[1] = "list" /\ Len(a.src[2]) = 1 /\ AddrType(a.src[2][1]) = 1 THEN a.src[2][1]
  ELSE W.all[1]
SwapHash(e) == IF e.a.part THEN Hex(e.a.hash) ELSE Sha256(Hex(e.res.secret))
IsContract(st, W, e, o) ==
  LET c == OutCond(o) d == CData(c) IN
  /\ CType(c) = 2 /\ OutValue(o) = Dec(e.a.v) /\ GetStr(d, "sender") = SwapSender(st, W, e.a) /\ GetStr(d, "receiver") = e.a.to
  /\ Hex(GetStr(d, "hashedsecret")) = SwapHash(e) /\ GetBig(d, "timelock") = RefundTime(st, e.a)
SwapPositions(st, W, e, tx) ==
  LET os == CoinOuts(tx) cs == {k \in 1..Len(os) : CType(OutCond(os[k])) = 2}
  IN IF Cardinality(cs) # 1 \/ \E k \in cs : OutValue(os[k]) # Dec(e.a.v) THEN {}
     ELSE IF Len(os) = 1 THEN {0} ELSE IF Len(os) = 2 THEN (1..2) \ cs ELSE {}
SwapCreate(st, W, A, e) ==
  LET err == IF Dec(e.a.v) = <<>> THEN "ValueError" ELSE IF BLeq(Dec(e.a.v), st.fee) THEN "AtomicSwapInsufficientAmountError" ELSE "" IN
  Paid(st, W, A, e, Total(<<e.a>>, <<>>, st.fee), 1, LAMBDA tx : SwapPositions(st, W, e, tx), <<>>, e.a.submit, err)
  \cup CIf(e.res.k = "ok" /\ e.a.bad = "" /\ err = "" /\ TxOK(e.res.tx),
     LET tx == e.res.tx os == CoinOuts(tx)
         k == {n \in 1..Len(os) : CType(OutCond(os[n])) = 2}
     IN C("A01", "one contract with the agreed terms", Cardinality(k) = 1 /\ \A n \in k : IsContract(st, W, e, os[n]))
        \cup C("A01", "a new secret of 32 bytes", ~e.a.part => Len(Hex(e.res.secret)) = 32 /\ e.res.secret \notin st.secrets
                                                              /\ Hex(e.res.secret) # Zeros(32))
        \cup CIf(Cardinality(k) = 1,
             LET n == Max(k) c == e.res.c d == CData(OutCond(os[n])) IN
             C("A01", "the contract that is returned",
                /\ c.id = OutputId(tx, "coin", n - 1) /\ c.sender = GetStr(d, "sender") /\ c.receiver = GetStr(d, "receiver")
                /\ Hex(c.hash) = Hex(GetStr(d, "hashedsecret")) /\ Dec(c.time) = GetBig(d, "timelock")
                /\ Dec(c.amount) = OutValue(os[n]) /\ c.unspent)))
(* claiming: as receiver with a secret, or as sender after the refund time *)
ClaimError(st, A, e) ==
  IF e.a.id \notin DOMAIN st.outs THEN "AtomicSwapContractNotFound"
  ELSE LET o == st.outs[e.a.id] d == CData(o.c) IN
       IF CType(o.c) # 2 THEN "any"
       ELSE IF o.sp # "" THEN "AtomicSwapContractSpent"
       ELSE IF e.op = "redeem"
            THEN (IF Sha256(Hex(e.a.secret)) # Hex(GetStr(d, "hashedsecret")) THEN "AtomicSwapInvalidSecret"
                  ELSE IF GetStr(d, "receiver") \notin A THEN "AtomicSwapForbidden" ELSE "")
            ELSE (IF LockedAt(GetBig(d, "timelock"), st.tip.h, st.tip.t) THEN "AtomicSwapForbidden"
                  ELSE IF GetStr(d, "sender") \notin A THEN "AtomicSwapForbidden" ELSE "")
Claim(st, W, A, e) ==
  LET err == ClaimError(st, A, e) IN
  IF e.res.k = "err" THEN
     C("A02", "a failed claim submits nothing", Accepted(e) = <<>> /\ (Refused(e) \/ e.posts = <<>>))
     \cup C("A02", "a rightful claim works", err # "" \/ Refused(e))
     \cup C("A02", "a wrongful claim fails with the error of its kind", err \in {"", "any", e.res.err})
  ELSE IF err # "" THEN C("A02", "a wrongful claim fails", FALSE)
  ELSE IF ~TxOK(e.res.tx) THEN C("A02", "a well-formed transaction", FALSE)
  ELSE LET tx == e.res.tx o == st.outs[e.a.id] d == CData(o.c)
           me == GetStr(d, IF e.op = "redeem" THEN "receiver" ELSE "sender")
       IN C("A02", "spends only the contract", Ver(tx) = 1 /\ NoStakes(tx) /\ Map(ParentId, CoinIns(tx)) = <<e.a.id>>)
          \cup C("A02", "pays its value minus the fee to the claimant",
                 /\ Len(CoinOuts(tx)) = 1 /\ FeeList(tx) = <<st.fee>> /\ BAdd(OutValue(CoinOuts(tx)[1]), st.fee) = o.v
                 /\ PaysTo(OutCond(CoinOuts(tx)[1]), <<"addr", me>>, NoLock, <<>>, <<>>))
          \cup C("A02", "fulfills the contract", SlotErrors(st, tx, 1) = {} /\ GivenSecret(FData(Fulf(CoinIns(tx)[1]))) = (e.op = "redeem"))
          \cup C("W08", "a valid signature by the owner", SlotErrors(st, tx, 1) \subseteq {"early", "secret"})
          \cup C("A02", "with the given data", ArbData(tx) = Hex(e.a.data))
          \cup C("A02", "one transaction is submitted", Len(e.posts) = 1 /\ e.posts[1].ok /\ e.posts[1].tx = tx /\ e.posts[1].id = e.res.id)
VerifyError(st, A, e) ==
  LET a == e.a inv == "AtomicSwapContractInvalid" IN
  IF a.id \notin DOMAIN st.outs THEN "AtomicSwapContractNotFound"
  ELSE LET o == st.outs[a.id] d == CData(o.c) now == st.tip.t lock == GetBig(d, "timelock") IN
       IF CType(o.c) # 2 THEN "any"
       ELSE IF o.sp # "" THEN "AtomicSwapContractSpent"
       ELSE IF a.amount # "" /\ Dec(a.amount) # o.v THEN inv
       ELSE IF a.hash # "" /\ Hex(a.hash) # Hex(GetStr(d, "hashedsecret")) THEN inv
       ELSE IF a.time[1] = "abs" /\ (IF BLeq(Dec(a.time[2]), now) THEN BLt(now, lock) ELSE BLt(lock, Dec(a.time[2]))) THEN inv
       ELSE IF a.sender /\ GetStr(d, "sender") \notin A THEN inv
       ELSE IF a.receiver /\ GetStr(d, "receiver") \notin A THEN inv ELSE ""
Verify(st, W, A, e) ==
  LET err == VerifyError(st, A, e) IN
  C("A03", "verification submits nothing", e.posts = <<>>) \cup
  IF e.res.k = "err" THEN C("A03", "a contract that meets the terms is accepted", err # "")
                          \cup C("A03", "fails with the error of its kind", err \in {"", "any", e.res.err})
  ELSE IF err # "" THEN C("A03", "a contract that does not meet the terms is refused", FALSE)
  ELSE LET o == st.outs[e.a.id] d == CData(o.c) c == e.res.c IN
       C("A03", "the contract as it is on the chain",
         /\ c.id = e.a.id /\ c.sender = GetStr(d, "sender") /\ c.receiver = GetStr(d, "receiver") /\ Hex(c.hash) = Hex(GetStr(d, "hashedsecret"))
         /\ Dec(c.time) = GetBig(d, "timelock") /\ Dec(c.amount) = o.v /\ c.unspent)

--------------------------------------------------------------------------------
(* Queries *)
SameTx(a, b) == TxOK(a) /\ Ver(a) = Ver(b) /\ IdInput(a) = IdInput(b)
TxRow(st, x) == /\ x.h = st.txs[x.id].h /\ x.u = (st.txs[x.id].h = 0 - 1)
Descend(l) == \A k \in 1..(Len(l) - 1) : l[k].u \/ (~l[k + 1].u /\ l[k].h >= l[k + 1].h)
Transactions(st, W, A, e) ==
  IF e.res.k = "err" THEN C("X03", "the transactions are reported", FALSE)
  ELSE LET l == e.res.txs
           want(B) == {id \in DOMAIN st.txs : st.txs[id].a \cap B # {}}
           got == {x.id : x \in ToSet(l)}
       IN C("X03", "each transaction of the wallet, once",
            Cardinality(got) = Len(l) /\ (got = want(A) \/ \E w \in ScanChain(st, W) : got = want(Held(w))))
          \cup CIf(got \subseteq DOMAIN st.txs,
                 C("X03", "newest first", Descend(l))
                 \cup C("X03", "height and confirmation state", \A x \in ToSet(l) : TxRow(st, x))
                 \cup C("X03", "the transaction as reported", \A x \in ToSet(l) : SameTx(x.tx, st.txs[x.id].tx)))
CondSame(a, b) == CondOK(a, TRUE) /\ EncCond("sia", a) = EncCond("sia", b)
GetTx(st, e) ==
  IF e.a.id \notin DOMAIN st.txs THEN C("X03", "nothing is reported as not found", e.res.k = "err" /\ e.res.err = "ExplorerNoContent")
  ELSE IF e.res.k = "err" THEN C("X03", "the transaction is reported", FALSE)
  ELSE LET r == e.res tx == st.txs[e.a.id].tx IN
       C("X03", "the transaction as reported", r.id = e.a.id /\ SameTx(r.tx, tx))
       \cup C("X03", "height and confirmation state", TxRow(st, r))
       \cup C("X03", "what its inputs spent", Len(r.ins) = Len(CoinIns(tx)) /\ \A k \in 1..Len(r.ins) :
                LET o == st.outs[ParentId(CoinIns(tx)[k])] IN
                r.ins[k][1] = ParentId(CoinIns(tx)[k]) /\ Dec(r.ins[k][2]) = o.v /\ CondSame(r.ins[k][3], o.c))
       \cup C("X03", "the identifiers of its outputs", Len(r.outs) = Len(CoinOuts(tx)) /\ \A k \in 1..Len(r.outs) :
                r.outs[k][1] = OutputId(tx, "coin", k - 1) /\ Dec(r.outs[k][2]) = OutValue(CoinOuts(tx)[k]))
GetOut(st, e) ==
  IF e.a.id \notin DOMAIN st.outs THEN C("X03", "nothing is reported as not found", e.res.k = "err" /\ e.res.err = "ExplorerNoContent")
  ELSE LET o == st.outs[e.a.id] IN
       C("X03", "the output as reported", e.res.k = "ok" /\ e.res.id = e.a.id /\ Dec(e.res.v) = o.v /\ CondSame(e.res.cond, o.c)
                                          /\ e.res.made = o.tx /\ e.res.spent = o.sp)
GetBlock(st, e) ==
  C("X03", "the block as reported", e.res.k = "ok" /\ e.res.id = e.a.id /\ e.res.h = e.a.h /\ e.res.t = e.a.t /\ e.res.parent = e.a.parent
                                    /\ e.res.txs = e.a.txs /\ e.res.payouts = e.a.payouts)
GetAddr(st, e) ==
  LET a == e.a.addr
      want == {id \in DOMAIN st.txs : a \in st.txs[id].a}
      ms == {st.outs[k].a : k \in {k \in DOMAIN st.outs : a \in st.outs[k].own}}
            \cup {CondAddr(m.c) : m \in {m \in ToSet(st.mints) : a \in OwnersOf(m.c)}}
            \cup UNION {{CondAddr(c) : c \in {c \in MintConds(st.txs[id].tx) : a \in OwnersOf(c)}} : id \in DOMAIN st.txs}
  IN IF want = {} /\ ms = {} /\ a \notin DOMAIN st.erc THEN C("X03", "nothing is reported as not found", e.res.k = "err" /\ e.res.err = "ExplorerNoContent")
     ELSE IF e.res.k = "err" THEN C("X03", "the address is reported", FALSE)
     ELSE C("X03", "the address that was asked for", e.res.addr = a)
          \cup C("X03", "each transaction of the address, once", {x.id : x \in ToSet(e.res.txs)} = want /\ Len(e.res.txs) = Cardinality(want))
          \cup C("X03", "height and confirmation state", \A x \in ToSet(e.res.txs) : x.id \in DOMAIN st.txs => TxRow(st, x))
          \cup C("X03", "its multisig addresses", ToSet(e.res.ms) = ms)
GetMint(st, e) ==
  LET past == SelectSeq(st.mints, LAMBDA m : m.h <= e.a.h)
      c == IF e.a.h < 0 THEN MintNow(st) ELSE IF past = <<>> THEN st.mints[1].c ELSE past[Len(past)].c
  IN C("X03", "the minting condition in force", e.res.k = "ok" /\ CondSame(e.res.cond, c))
     \cup C("M01", "the minting condition in force", e.res.k = "ok" /\ CondSame(e.res.cond, c))
Info(st, e) == C("X03", "the chain tip", e.res.k = "ok" /\ e.res.id = st.tip.id /\ e.res.h = st.tip.h /\ Dec(e.res.t) = st.tip.t)

--------------------------------------------------------------------------------
(* Keys *)
RECURSIVE Bits(_, _)
Bits(n, k) == IF k = 0 THEN <<>> ELSE Append(Bits(n \div 2, k - 1), n % 2)
BitsOf(b) == Cat(Map(LAMBDA x : Bits(x, 8), b))
WordsOf(seed) ==                           \* BIP-39: the seed and its checksum in groups of eleven bits
  LET n == Len(seed) \div 4
      bits == BitsOf(seed) \o SubSeq(BitsOf(Sha256(seed)), 1, n)
      num(k) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(bits, 11 * k - 10, 11 * k))
  IN [k \in 1..(3 * n) |-> num(k)]
NumOf(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)
SeedOf(words) ==                           \* and back; <<>> if these are not the words of a seed
  LET n == Len(words)
      bits == Cat(Map(LAMBDA x : Bits(x, 11), words))
      k == (n \div 3) * 4
      seed == [j \in 1..k |-> NumOf(SubSeq(bits, 8 * j - 7, 8 * j))]
  IN IF n \in {12, 15, 18, 21, 24} /\ (\A x \in ToSet(words) : x < 2048) /\ WordsOf(seed) = words THEN seed ELSE <<>>
FromWords(e) ==
  LET seed == SeedOf(e.a.words) IN
  IF seed = <<>> THEN C("W07", "words that are not those of a seed are refused", e.res.k = "err")
  ELSE C("W07", "words are read back as their seed", e.res.k = "ok" /\ Hex(e.res.seedout) = seed /\ e.res.addr = KeyAddr(KeyPub(seed, 0)))
Create(st, e, W) ==
  IF e.res.k = "err" THEN C("W07", "a wallet can be made", FALSE)
  ELSE C("W07", "the first address derives from the seed", e.res.addr = W.all[1])
       \cup C("W07", "a seed has at least 16 bytes", Len(Hex(e.a.seed)) >= 16)
       \cup C("W07", "the words are those of the seed", e.res.seedout = e.a.seed /\ e.res.words = WordsOf(Hex(e.a.seed)))
NewAddress(st, W, e) ==
  C("W07", "the next address in order", e.res.k = "ok" /\ e.res.addr \in {NextAddr(W), NextAddr(Scanned(st, W))})

--------------------------------------------------------------------------------
(* Events *)
PutPosts(st, e) ==
  FoldLeft(LAMBDA x, p : IF p.ok /\ TxOK(p.tx) THEN PutTx(x, p.id, p.tx, 0 - 1) ELSE x, st, e.posts)
(* the wallet after an operation (in the state st2 that the operation led to) *)
TookKey(W, e) == \/ e.op = "newaddr" /\ e.res.k = "ok"
                 \/ e.op = "botnew" /\ e.a.key < 0 /\ (e.res.k = "ok" \/ Refused(e))
                 \/ e.op = "ercreg" /\ e.a.of[1] = "new" /\ (e.res.k = "ok" \/ Refused(e))
GaveAddr(e) == IF e.res.k = "err" THEN ""
               ELSE IF e.op = "newaddr" THEN e.res.addr
               ELSE IF ~TxOK(e.res.tx) THEN ""
               ELSE PkAddr(IF e.op = "botnew" THEN GetStr(Ident(e.res.tx), "publickey") ELSE GetStr(TData(e.res.tx), "pubkey"))
WalletAfter(st, st2, e) ==
  IF e.op = "wallet" THEN Scanned(st2, NewWallet(st, Hex(e.a.seed), e.a.keys, e.a.scan))
  ELSE LET W == st.ws[e.w]
           W1 == IF ~TookKey(W, e) THEN W
                 ELSE IF e.op = "newaddr" /\ GaveAddr(e) = NextAddr(W) THEN NewKey(W)
                 ELSE IF GaveAddr(e) = NextAddr(Scanned(st, W)) \/ GaveAddr(e) # NextAddr(W) THEN NewKey(Scanned(st, W))
                 ELSE NewKey(W)
           \* the keys are scanned before the request and after it; a request that fails early only does the latter,
           \* which differs when the request itself is the first to use a key
           S == Scanned(st2, W1)
           T == Scanned(st2, Scanned(st, W1))
       IN IF S # T /\ HeldAddrs(T) = e.addrs THEN T ELSE S
After(st, e) ==
  CASE e.e = "net" -> [st EXCEPT !.fee = Dec(e.fee), !.owner = e.owner]
    [] e.e = "tip" -> [st EXCEPT !.tip = [h |-> e.h, t |-> Dec(e.t), id |-> e.id]]
    [] e.e = "mint" -> [st EXCEPT !.mints = Append(@, [h |-> e.h, c |-> e.cond]), !.seen = @ \cup OwnersOf(e.cond)]
    [] e.e = "bot" -> [st EXCEPT !.bots = (e.id :> [key |-> e.key, names |-> e.names, addrs |-> e.addresses, exp |-> Dec(e.exp)]) @@ @]
    [] e.e = "erc20" -> [st EXCEPT !.erc = (e.addr :> e.conf) @@ @]
    [] e.e = "tx" -> PutTx(st, e.id, e.tx, IF e.conf THEN st.tip.h ELSE 0 - 1)
    [] e.e = "confirm" -> [st EXCEPT !.txs = [k \in DOMAIN @ |-> IF k \in ToSet(e.ids) THEN [@[k] EXCEPT !.h = e.h] ELSE @[k]]]
    [] e.e = "op" ->
         LET st2 == PutPosts(st, e)
             st3 == IF e.op = "swap" /\ e.res.k = "ok" THEN [st2 EXCEPT !.secrets = @ \cup {e.res.secret}]
                    ELSE IF e.op \in {"mintdef", "mintcoins"} /\ e.res.k = "ok" /\ TxOK(e.res.tx) /\ Ver(e.res.tx) \in {128, 129}
                         THEN [st2 EXCEPT !.nonces = @ \cup {Nonce(e.res.tx)}] ELSE st2
             st4 == IF e.op \in {"snap", "put", "merge"} THEN [st3 EXCEPT !.slots = Slots(st3, e)] ELSE st3
         IN IF e.w = 0 THEN st4 ELSE [st4 EXCEPT !.ws = (e.w :> WalletAfter(st, st3, e)) @@ @]
(* balances of single addresses *)
AddressBalances(st, e) ==
  IF e.res.k = "err" THEN C("W04", "the balance of an address is reported", FALSE)
  ELSE LET got(x) == Snapped(st, [a |-> [from |-> "addr", addr |-> x.addr, dh |-> 0, dt |-> 0], res |-> [r |-> x.r]])
       IN C("W04", "the balance of an address is reported", {st.outs[k].a : k \in DOMAIN st.outs} \cap ToSet(e.a.of) \subseteq {x.addr : x \in ToSet(e.res.list)})
          \cup UNION {C(IF AddrType(x.addr) = 3 THEN "W05" ELSE "W04", "the balance of an address", SlotIs(st, got(x), x.r)) : x \in ToSet(e.res.list)}
(* what event e breaks; st and st2 are the states before and after it *)
OpClauses(st, st2, e) ==
  LET A == ToSet(e.addrs)
      W == IF e.w \in DOMAIN st.ws THEN st.ws[e.w] ELSE IF e.w = 0 THEN NoFn ELSE st2.ws[e.w]
  IN CASE e.op = "wallet" -> Create(st, e, st2.ws[e.w])
       [] e.op = "words" -> FromWords(e)
       [] e.op = "send" -> Send(st, W, A, e)
       [] e.op = "sign" -> Sign(st, W, A, e)
       [] e.op = "balance" -> Balance(st, W, A, e)
       [] e.op = "addrbals" -> AddressBalances(st, e)
       [] e.op \in {"snap", "put", "merge"} -> SlotClauses(st, st2, e)
       [] e.op = "drain" -> Drain(st, W, A, e)
       [] e.op = "newaddr" -> NewAddress(st, W, e)
       [] e.op = "txs" -> Transactions(st, W, A, e)
       [] e.op = "swap" -> SwapCreate(st, W, A, e)
       [] e.op \in {"redeem", "refund"} -> Claim(st, W, A, e)
       [] e.op = "verify" -> Verify(st, W, A, e)
       [] e.op = "mintdef" -> MintDefine(st, W, A, e)
       [] e.op = "mintcoins" -> MintCoins(st, W, A, e)
       [] e.op = "botnew" -> BotNew(st, W, A, e)
       [] e.op = "botupd" -> BotUpdate(st, W, A, e)
       [] e.op = "botxfer" -> BotTransfer(st, W, A, e)
       [] e.op = "botget" -> BotGet(st, e)
       [] e.op = "ercsend" -> Erc20Send(st, W, A, e)
       [] e.op = "ercreg" -> Erc20Register(st, W, A, e)
       [] e.op = "ercget" -> Erc20Get(st, W, A, e)
       [] e.op = "ercall" -> Erc20All(st, W, A, e)
       [] e.op = "gettx" -> GetTx(st, e)
       [] e.op = "getout" -> GetOut(st, e)
       [] e.op = "getblock" -> GetBlock(st, e)
       [] e.op = "getaddr" -> GetAddr(st, e)
       [] e.op = "getmint" -> GetMint(st, e)
       [] e.op = "info" -> Info(st, e)
Clauses(st, st2, e) ==
  IF e.e = "tx" THEN C("HARNESS", "output identifiers", CoinOutputIds(e.tx) = e.ids)
  ELSE IF e.e # "op" THEN {}
  ELSE OpClauses(st, st2, e)
       \cup C("W03", "nothing hangs", ~(e.res.k = "err" /\ e.res.err = "Hang"))
       \cup CIf(e.w # 0 /\ e.op # "wallet" /\ e.res.k = "err" /\ ~Refused(e),
                C("W03", "a failed request leaves the keys as they were", e.addrs = HeldAddrs(st2.ws[e.w])))
       \cup CIf(e.w # 0, C("W07", "holds exactly the keys it should, in order", e.addrs = HeldAddrs(st2.ws[e.w])))
       \cup C("W09", "a query submits nothing", e.op \in {"balance", "newaddr", "txs", "ercget", "ercall", "wallet"} => e.posts = <<>>)

(* situations that occurred, for the account of what was covered *)
Labels(st, e) ==
  IF e.e # "op" THEN {}
  ELSE LET tx == IF e.res.k = "ok" /\ "tx" \in DOMAIN e.res THEN e.res.tx ELSE Empty
           ins == Map(ParentId, CoinIns(tx))
           os == {st.outs[k] : k \in ToSet(ins) \cap DOMAIN st.outs}
       IN {e.op \o " " \o (IF e.res.k = "ok" THEN "ok" ELSE e.res.err)}
          \cup CIf("sub" \in DOMAIN e.res /\ e.res.k = "ok" /\ ~e.res.sub, {e.op \o " not submitted"})
          \cup CIf(Len(ins) > 1, {e.op \o " several inputs"})
          \cup CIf(Len(ins) = MaxInputs, {e.op \o " 99 inputs"})
          \cup CIf(\E o \in os : o.ty = 4, {e.op \o " multisig input"})
          \cup CIf(\E o \in os : o.l # <<>>, {e.op \o " formerly locked input"})
          \cup CIf(\E o \in os : ~Confirmed(st, o.tx), {e.op \o " pending input"})
          \cup CIf(\E k \in DOMAIN st.outs : LockedNow(st, st.outs[k]), {e.op \o " with locked outputs around"})
          \cup CIf(\E k \in DOMAIN st.outs : SpentP(st, st.outs[k]), {e.op \o " with pending spends around"})

--------------------------------------------------------------------------------
Ev == Traces[t].events
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Empty0 /\ bad = {} /\ hit = {}
Step ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] s2 == After(s, e) IN
     /\ s' = s2
     /\ bad' = bad \cup {<<i, x[1], x[2]>> : x \in Clauses(s, s2, e)}
     /\ hit' = hit \cup Labels(s, e)
  /\ i' = i + 1 /\ t' = t
Finish ==
  /\ i = Len(Ev) + 1
  /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> Len(Ev), bad |-> SetToSeq(bad), hit |-> SetToSeq(hit)]))
  /\ i' = i + 1 /\ UNCHANGED <<t, s, bad, hit>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
