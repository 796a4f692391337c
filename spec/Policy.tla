------------------------------- MODULE Policy -------------------------------
(* What a wallet is asked to do, as rules over amounts, recipients and     *)
(* outputs: which outputs may be spent, what must be paid, what the        *)
(* resulting outputs are.                                                  *)
EXTENDS Rules, FiniteSetsExt, TLC

TFT(n) == BMul(Dec("1000000000"), n)

--------------------------------------------------------------------------------
(* Sums over sets of outputs; val maps an output to its value *)
RECURSIVE SumOver(_, _)
SumOver(val, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN BAdd(val[x], SumOver(val, S \ {x}))
Descending(s) == SortSeq(s, LAMBDA a, b : BLt(b, a))
MaxInputs == 99
(* the most that can be spent at once from the outputs in S *)
TopSum(val, S) ==
  IF Cardinality(S) <= MaxInputs THEN SumOver(val, S)
  ELSE BSum(SubSeq(Descending(LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> val[q[i]]]), 1, MaxInputs))

--------------------------------------------------------------------------------
(* Recipients: <<"nil">>, <<"addr", address>>, <<"multi", owners, count>> or <<"erc20", address>>. *)
(* Locks: <<"none">>, <<"abs", value>> or <<"dur", seconds>>.                                      *)
RecAddr(r) == IF r[1] = "nil" THEN NilAddr ELSE IF r[1] = "multi" THEN MultiAddr(r[2], r[3]) ELSE r[2]
(* conditions up to the order of owners *)
NormCond(c) ==
  LET in == Inner(c) t == CType(in) d == CData(in)
  IN <<IF CType(c) = 3 THEN <<LockOf(c)>> ELSE <<>>, t>> \o
     CASE t = 0 -> <<>>
       [] t = 1 -> <<GetStr(d, "unlockhash")>>
       [] t = 2 -> <<GetStr(d, "sender"), GetStr(d, "receiver"), GetStr(d, "hashedsecret"), GetBig(d, "timelock")>>
       [] t = 4 -> <<MinSigs(in), SortSeq(Owners(in), AddrLess)>>
NormRec(r) == CASE r[1] = "nil" -> <<0>> [] r[1] = "addr" -> <<1, r[2]>>
                [] r[1] = "multi" -> <<4, r[3], SortSeq(r[2], AddrLess)>>
(* does condition c pay recipient r with lock l, in a request made between t0 and t1? *)
PaysTo(c, r, l, t0, t1) ==
  LET n == NormCond(c) lock == n[1]
  IN /\ Tail(n) = NormRec(r)
     /\ CASE l[1] = "none" -> lock = <<>>
          [] l[1] = "abs" -> lock = <<Dec(l[2])>>
          [] l[1] = "dur" -> lock # <<>> /\ BLeq(BAdd(Dec(l[2]), t0), lock[1]) /\ BLeq(lock[1], BAdd(Dec(l[2]), t1))
NoLock == <<"none">>
Pays(o, q, t0, t1) == OutValue(o) = Dec(q.v) /\ PaysTo(OutCond(o), q.r, q.l, t0, t1)

(* Are the outputs exactly the requested ones, in any order, followed or interspersed by at most *)
(* one refund? Yields the possible positions of the refund (0: none); empty if they are not.     *)
RECURSIVE Assignable(_, _, _, _)
Assignable(os, qs, t0, t1) ==
  IF qs = <<>> THEN os = <<>>
  ELSE \E i \in 1..Len(os) : Pays(os[i], qs[1], t0, t1) /\ Assignable(RemoveAt(os, i), Tail(qs), t0, t1)
RefundPositions(os, qs, t0, t1) ==
  IF Len(os) = Len(qs) THEN (IF Assignable(os, qs, t0, t1) THEN {0} ELSE {})
  ELSE IF Len(os) # Len(qs) + 1 THEN {}
  ELSE {i \in 1..Len(os) : Assignable(RemoveAt(os, i), qs, t0, t1)}

--------------------------------------------------------------------------------
(* 3Bot fees *)
MonthFee(m) == LET full == TFT(10 * m)
               IN IF m < 12 THEN full ELSE IF m < 24 THEN TFT(7 * m) ELSE TFT(5 * m)
RegistrationFee(months, names) ==
  BAdd(BAdd(TFT(90), MonthFee(months)), TFT(50 * (IF names > 1 THEN names - 1 ELSE 0)))
UpdateFee(months, namesAdded, addressesChanged) ==
  BAdd(BAdd(MonthFee(months), TFT(50 * namesAdded)), IF addressesChanged THEN TFT(20) ELSE <<>>)
TransferFee(names) == TFT(50 * names)
ERC20RegistrationFee == TFT(10)

--------------------------------------------------------------------------------
(* A JSON transaction that is well formed enough to be judged *)
IsId(s) == IsHex(s) /\ Len(Hex(s)) = 32
OutOK(o) == IsObj(o) /\ Has(o, "value") /\ Get(o, "value")[1] = "s" /\ IsDec(GetStr(o, "value"))
              /\ Has(o, "condition") /\ CondOK(GetObj(o, "condition"), TRUE)
InOK(ci) == IsObj(ci) /\ Has(ci, "parentid") /\ Get(ci, "parentid")[1] = "s" /\ IsId(ParentId(ci)) /\ Has(ci, "fulfillment") /\ FulfOK(Fulf(ci))
KnownVersions == {1, 128, 129, 144, 145, 146, 208, 209, 210}
StrsOK(j, k) == \A v \in ToSet(GetArr(j, k)) : v[1] = "s"
FeesOK(tx) == IF Ver(tx) \in {1, 128, 129} THEN \A v \in ToSet(GetArr(TData(tx), "minerfees")) : v[1] = "s" /\ IsDec(v[2])
              ELSE Has(TData(tx), "txfee") /\ Get(TData(tx), "txfee")[1] = "s" /\ IsDec(GetStr(TData(tx), "txfee"))
PkOK(j, k) == Has(j, k) /\ Get(j, k)[1] = "s" /\ IsPk(GetStr(j, k))
DecField(j, k) == Has(j, k) /\ Get(j, k)[1] = "s" /\ IsDec(GetStr(j, k))
IntField(j, k) == Has(j, k) /\ Get(j, k)[1] = "i" /\ IsDec(Get(j, k)[2]) /\ Len(GetBig(j, k)) <= 3
TxOK(tx) ==
  /\ IsObj(tx) /\ Has(tx, "version") /\ Get(tx, "version")[1] = "i" /\ Ver(tx) \in KnownVersions /\ Has(tx, "data") /\ IsObj(TData(tx))
  /\ FeesOK(tx)
  /\ \A ci \in ToSet(CoinIns(tx)) : InOK(ci)
  /\ Ver(tx) # 209 => \A o \in ToSet(CoinOuts(tx)) : OutOK(o)
  /\ LET d == TData(tx) v == Ver(tx) IN
     CASE v = 1 -> TRUE
       [] v = 128 -> CondOK(GetObj(d, "mintcondition"), TRUE) /\ FulfOK(GetObj(d, "mintfulfillment"))
       [] v = 129 -> FulfOK(GetObj(d, "mintfulfillment"))
       [] v = 144 -> IntField(d, "nrofmonths") /\ StrsOK(d, "addresses") /\ StrsOK(d, "names") /\ PkOK(Ident(tx), "publickey") /\ SigField(Ident(tx))
       [] v = 145 -> IntField(d, "id") /\ IntField(d, "nrofmonths") /\ SigField(d)
                       /\ \A f \in {"addresses", "names"}, k \in {"add", "remove"} : StrsOK(GetObj(d, f), k)
       [] v = 146 -> IntField(GetObj(d, "sender"), "id") /\ IntField(GetObj(d, "receiver"), "id")
                       /\ StrsOK(d, "names") /\ SigField(GetObj(d, "sender")) /\ SigField(GetObj(d, "receiver"))
       [] v = 208 -> DecField(d, "value") /\ Get(d, "address")[1] = "s"
       [] v = 209 -> TRUE
       [] v = 210 -> DecField(d, "regfee") /\ PkOK(d, "pubkey") /\ SigField(d)
(* is there anything in the transaction besides what its type has? *)
NoStakes(tx) == Ver(tx) = 1 => StakeIns(tx) = <<>> /\ StakeOuts(tx) = <<>>
=============================================================================
