------------------------------- MODULE TxJson -------------------------------
(* Which JSON is a transaction? The verdict on a value is                    *)
(*   3  it is one, in the form in which the program writes it                *)
(*   2  it may be accepted, as the same transaction (parts left out, upper   *)
(*      case digits and the like), or refused                                *)
(*   1  unspecified                                                          *)
(*   0  it must be refused                                                   *)
(* and Norm brings the forms of one transaction together.                    *)
EXTENDS Wire, Amounts

Min2(a, b) == IF a < b THEN a ELSE b
All(vs) == IF \E k \in 1..Len(vs) : vs[k] = 0 THEN 0 ELSE FoldLeft(Min2, 3, vs)
OfReading(x) == CASE x.r = "ok" -> 3 [] x.r = "may" -> 2 [] x.r = "free" -> 1 [] OTHER -> 0

At(j, k) == IF Has(j, k) THEN Get(j, k) ELSE <<"n">>
(* what stands for nothing at all *)
Void(j) == j[1] = "n" \/ j \in {<<"s", "">>, <<"i", "0">>, <<"b", FALSE>>, <<"a", <<>>>>, Empty, <<"x", "0.0">>, <<"x", "-0.0">>}
(* a part that must be there is refused or taken for nothing when it is void; v: the verdict on it otherwise *)
Part(j, k, f(_)) == LET x == At(j, k) IN IF x[1] = "n" THEN (IF f(x) = 0 THEN 2 ELSE f(x)) ELSE IF Void(x) THEN (IF f(x) < 2 THEN 2 ELSE f(x)) ELSE f(x)
Optional(j, k, f(_)) == IF j[1] = "o" /\ k \notin DOMAIN j[2] THEN 3 ELSE IF Void(At(j, k)) THEN Min2(2, Part(j, k, f)) ELSE Part(j, k, f)
Each(j, f(_)) == IF j[1] = "a" THEN All([k \in 1..Len(j[2]) |-> f(j[2][k])]) ELSE IF Void(j) THEN 2 ELSE 0
Ever(j, f(_)) == IF j[1] = "o" THEN f(j) ELSE 0

HexText(j, size) ==
  IF j[1] = "n" \/ j = <<"s", "">> THEN 2
  ELSE IF j[1] # "s" \/ ~IsHex(j[2]) \/ Len(Hex(j[2])) # size THEN 0
  ELSE IF LowerText(Utf8(j[2])) = Utf8(j[2]) THEN 3 ELSE 2
VHash(j) == HexText(j, 32)
VSig(j) == IF j = <<"s", "">> THEN 3 ELSE IF Void(j) THEN 2 ELSE HexText(j, 64)
VAddr(j) == IF j[1] # "s" THEN 0 ELSE IF IsAddr(j[2]) THEN 3 ELSE IF IsAddr(StrOf(LowerText(Utf8(j[2])))) THEN 2 ELSE 0
NoKey == ":" \o ToHex(Zeros(32))
VPk(j) ==
  IF Void(j) THEN 2 ELSE IF j[1] # "s" THEN 0 ELSE IF j[2] = NoKey THEN 3
  ELSE IF IsPk(j[2]) THEN (IF LowerText(Utf8(j[2])) = Utf8(j[2]) THEN 3 ELSE 2)
  ELSE LET u == Utf8(j[2]) IN IF u # <<>> /\ u[1] = 58 THEN 1 ELSE 0
VAmount(j) == OfReading(ReadJson(j))
VStakes(j) ==
  IF j[1] = "n" \/ j = <<"s", "">> THEN 2 ELSE IF j[1] # "s" THEN 0
  ELSE LET u == Utf8(j[2]) IN IF AllDigits(u) THEN (IF Len(u) = 1 \/ u[1] # 48 THEN 3 ELSE 2)
       ELSE IF \E k \in 1..Len(u) : u[k] \in {95, 43} \/ IsSpace(u[k]) \/ u[k] > 127 THEN 1
       ELSE IF u[1] = 45 /\ Len(u) > 1 /\ NoughtsOnly(Tail(u)) THEN 1 ELSE 0
VNat(j, size) == IF j[1] = "i" /\ IsDec(j[2]) THEN (IF Len(Dec(j[2])) <= size THEN 3 ELSE IF Len(Dec(j[2])) <= 8 THEN 1 ELSE 0) ELSE 0
VNat8(j) == VNat(j, 8)
VId(j) == IF j[1] = "n" THEN 2 ELSE VNat(j, 4)
VMonths(j) == IF j[1] = "n" THEN 2 ELSE IF VNat(j, 8) = 3 /\ BLt(BOfInt(24), Dec(j[2])) THEN 1 ELSE VNat(j, 8)
VData(j) == IF j = <<"s", "">> THEN 3 ELSE IF Void(j) THEN 2 ELSE IF j[1] # "s" THEN 0
            ELSE IF IsBase64(j[2]) THEN (IF Len(Base64(j[2])) <= 83 THEN 3 ELSE 1)
            ELSE LET u == Utf8(j[2]) IN IF \A k \in 1..Len(u) : IsDigit(u[k]) \/ u[k] \in (65..90) \cup (97..122) \cup {43, 47, 61} THEN 1 ELSE 0
VNonce(j) == IF VData(j) = 3 /\ Len(Base64(j[2])) # 8 THEN 1 ELSE VData(j)

(* names and network addresses of 3Bots *)
Alpha(b) == b \in (65..90) \cup (97..122)
Alnum(b) == Alpha(b) \/ IsDigit(b)
NameOK(s) ==
  LET u == Utf8(s) p == Split(u, 46)
  IN Len(u) <= 63 /\ \A k \in 1..Len(p) :
       /\ Len(p[k]) >= 5 /\ Len(p[k]) <= (IF k = 1 THEN 63 ELSE 57)
       /\ Alpha(p[k][1]) /\ Alnum(p[k][Len(p[k])]) /\ \A i \in 1..Len(p[k]) : Alnum(p[k][i]) \/ p[k][i] = 45
HostOK(s) ==
  LET u == Utf8(s) p == Split(u, 46) l == p[1] n == Len(l)
      top(x, lo, hi) == Len(x) >= lo /\ Len(x) <= hi /\ \A i \in 1..Len(x) : Alpha(x[i])
  IN /\ Len(u) <= 63 /\ n >= 1
     /\ IF n = 1 THEN Alpha(l[1]) ELSE IF n = 2 THEN Alnum(l[1]) /\ Alnum(l[2]) /\ (Alpha(l[1]) \/ Alpha(l[2]))
        ELSE Alnum(l[1]) /\ Alnum(l[n]) /\ \A i \in 1..n : Alnum(l[i]) \/ l[i] \in {45, 95}
     /\ \/ Len(p) = 2 /\ top(p[2], 2, 6)
        \/ Len(p) = 3 /\ top(p[3], 2, 3) /\ Len(p[2]) >= 2 /\ Len(p[2]) <= 30 /\ \A i \in 1..Len(p[2]) : Alnum(p[2][i]) \/ p[2][i] = 45
Four(s) ==
  LET p == Split(Utf8(s), 46)
  IN Len(p) = 4 /\ \A k \in 1..4 : Len(p[k]) >= 1 /\ Len(p[k]) <= 3 /\ AllDigits(p[k])
                     /\ (Len(p[k]) > 1 => p[k][1] # 48) /\ BInt(DecBytes(p[k])) < 256
(* addresses of eight groups, shortened as the program does it; other forms are tolerated *)
SixText(s) == \A k \in 1..Len(Utf8(s)) : Utf8(s)[k] \in (48..58) \cup (97..102)
Six(s) ==
  LET p == Split(Utf8(s), 58)
      grp(x) == Len(x) >= 1 /\ Len(x) <= 4 /\ (Len(x) > 1 => x[1] # 48) /\ IsHex(StrOf(Pad4(x)))
  IN /\ SixText(s)
     /\ \/ Len(p) = 8 /\ \A k \in 1..8 : grp(p[k]) /\ ~\E q \in 1..7 : p[q] = <<48>> /\ p[q + 1] = <<48>>
        \/ Len(p) \in 3..7 /\ Cardinality({k \in 1..Len(p) : p[k] = <<>>}) = 1 /\ (\A k \in {1, Len(p)} : p[k] # <<>>)
           /\ \A k \in 1..Len(p) : p[k] = <<>> \/ (grp(p[k]) /\ p[k] # <<48>>)
VNet(j) == IF Void(j) /\ j[1] \in {"n", "s"} THEN 1 ELSE IF j[1] # "s" THEN 0
           ELSE IF HostOK(j[2]) \/ Four(j[2]) \/ Six(j[2]) THEN 3
           ELSE LET u == Utf8(j[2]) IN
                IF 58 \in ToSet(u) THEN 1
                ELSE IF \E k \in 1..Len(u) : u[k] > 127 THEN 1 ELSE 0
VName(j) == IF Void(j) /\ j[1] \in {"n", "s"} THEN 1 ELSE IF j[1] # "s" THEN 0 ELSE IF NameOK(j[2]) THEN 3 ELSE 0
VErc(j, size) ==
  IF j[1] = "n" \/ j = <<"s", "">> THEN 2 ELSE IF j[1] # "s" THEN 0
  ELSE LET u == Utf8(j[2])
           pre == Len(u) >= 2 /\ u[1] = 48 /\ u[2] \in {88, 120}
           v == IF pre THEN SubSeq(u, 3, Len(u)) ELSE u
       IN IF u = <<48, 120>> \/ u = <<48, 88>> THEN 2 ELSE IF Len(v) # 2 * size \/ ~IsHex(StrOf(v)) THEN 0
          ELSE IF pre /\ u[2] = 120 /\ LowerText(v) = v THEN 3 ELSE 2
VErc20(j) == VErc(j, 20)
VErc32(j) == VErc(j, 32)

(* conditions and fulfillments *)
VSwapAddr(j) == IF VAddr(j) # 0 /\ AddrType(j[2]) \notin {0, 1} THEN 0 ELSE VAddr(j)
VSwapTime(j) == IF VNat8(j) = 3 /\ BLt(Dec(j[2]), BOfInt(500000000)) THEN 1 ELSE VNat8(j)
VOwners(j) == Each(j, VAddr)
RECURSIVE VCond(_, _)
VCondIn(j) == IF j[1] = "o" /\ VCond(j, FALSE) # 0 THEN VCond(j, FALSE) ELSE 0
VCond(j, nest) ==
  IF j[1] # "o" THEN 0
  ELSE LET t == At(j, "type") d == At(j, "data") IN
    IF t[1] = "n" THEN (IF Void(d) THEN 2 ELSE 0)
    ELSE IF t[1] # "i" \/ ~IsDec(t[2]) \/ Len(Dec(t[2])) > 1 THEN 0
    ELSE LET k == BInt(Dec(t[2])) IN
      IF k = 0 THEN (IF "data" \notin DOMAIN j[2] THEN 3 ELSE IF Void(d) THEN 2 ELSE 0)
      ELSE IF k > 4 \/ (~nest /\ k \in {2, 3}) \/ d[1] # "o" THEN 0
      ELSE IF k = 1 THEN Part(d, "unlockhash", VAddr)
      ELSE IF k = 2 THEN All(<<Part(d, "sender", VSwapAddr), Part(d, "receiver", VSwapAddr), Part(d, "hashedsecret", VHash), Part(d, "timelock", VSwapTime)>>)
      ELSE IF k = 3 THEN All(<<Part(d, "locktime", VNat8), Part(d, "condition", VCondIn)>>)
      ELSE All(<<Part(d, "minimumsignaturecount", VNat8), Part(d, "unlockhashes", VOwners)>>)
VAnyCond(j) == VCond(j, TRUE)
VPair(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "publickey", VPk), Part(j, "signature", VSig)>>)
VPairs(j) == Each(j, VPair)
VFulf(j) ==
  IF j[1] # "o" THEN 0
  ELSE LET t == At(j, "type") d == At(j, "data") IN
    IF t[1] # "i" \/ t[2] \notin {"1", "2", "3"} \/ d[1] # "o" THEN 0
    ELSE IF t[2] = "3" THEN Part(d, "pairs", VPairs)
    ELSE All(<<VPair(d), IF t[2] = "2" THEN Optional(d, "secret", VHash) ELSE 3>>)

(* inputs and outputs *)
VIn(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "parentid", VHash), Part(j, "fulfillment", VFulf)>>)
VOut(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "value", VAmount), Part(j, "condition", VAnyCond)>>)
VStakeOut(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "value", VStakes), Part(j, "condition", VAnyCond)>>)
VIns(j) == Each(j, VIn)
VOuts(j) == Each(j, VOut)
VStakeOuts(j) == Each(j, VStakeOut)
VFees(j) == Each(j, VAmount)
VNets(j) == IF j[1] = "a" /\ Len(j[2]) > 15 THEN Min2(1, Each(j, VNet)) ELSE Each(j, VNet)
VNames(j) == IF j[1] = "a" /\ Len(j[2]) > 15 THEN Min2(1, Each(j, VName)) ELSE Each(j, VName)
VNetsUpdate(j) == IF Void(j) THEN 2 ELSE IF j[1] # "o" THEN 0 ELSE All(<<Optional(j, "add", VNets), Optional(j, "remove", VNets)>>)
VNamesUpdate(j) == IF Void(j) THEN 2 ELSE IF j[1] # "o" THEN 0 ELSE All(<<Optional(j, "add", VNames), Optional(j, "remove", VNames)>>)
VSide(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "id", VId), Part(j, "signature", VSig)>>)
VIdent(j) == IF j[1] # "o" THEN 0 ELSE VPair(j)
(* legacy *)
VOldIn(j) ==
  IF j[1] # "o" THEN 0
  ELSE LET un == At(j, "unlocker") c == At(un, "condition") f == At(un, "fulfillment")
       IN IF (Has(j, "unlocker") /\ un[1] # "o") \/ (Has(un, "condition") /\ c[1] # "o") \/ (Has(un, "fulfillment") /\ f[1] # "o") THEN 0
          ELSE All(<<IF At(un, "type") = <<"i", "1">> THEN 3 ELSE 1, Part(j, "parentid", VHash), Part(c, "publickey", VPk), Part(f, "signature", VSig)>>)
VOldAddr(j) == VAddr(j)
VOldOut(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "value", VAmount), Part(j, "unlockhash", VOldAddr)>>)
VOldStakeOut(j) == IF j[1] # "o" THEN 0 ELSE All(<<Part(j, "value", VStakes), Part(j, "unlockhash", VOldAddr)>>)
VOldIns(j) == Each(j, VOldIn)
VOldOuts(j) == Each(j, VOldOut)
VOldStakeOuts(j) == Each(j, VOldStakeOut)

RegFee == <<"s", "10000000000">>
VRegFee(j) == IF j = RegFee THEN 3 ELSE IF VAmount(j) = 1 THEN 1 ELSE IF VAmount(j) = 2 /\ ReadJson(j).n = Dec(RegFee[2]) THEN 2 ELSE IF Void(j) THEN 1 ELSE 0
Verdict(j) ==
  IF j[1] # "o" THEN 0
  ELSE LET t == At(j, "version") d == At(j, "data") IN
    IF t[1] # "i" \/ t[2] \notin {"0", "1", "128", "129", "144", "145", "146", "208", "209", "210"} THEN 0
    ELSE LET v == t[2] IN
      IF d[1] = "n" THEN (IF v = "1" /\ "data" \notin DOMAIN j[2] THEN 3 ELSE 2)
      ELSE IF d[1] # "o" THEN (IF Void(d) THEN 2 ELSE 0)
      ELSE IF Void(d) THEN 2
      ELSE LET money == <<Part(d, "txfee", VAmount), Part(d, "coininputs", VIns), Optional(d, "refundcoinoutput", VOut)>>
           IN CASE v = "0" -> All(<<Optional(d, "coininputs", VOldIns), Optional(d, "coinoutputs", VOldOuts), Optional(d, "blockstakeinputs", VOldIns),
                                    Optional(d, "blockstakeoutputs", VOldStakeOuts), Optional(d, "minerfees", VFees), Optional(d, "arbitrarydata", VData)>>)
                [] v = "1" -> All(<<Optional(d, "coininputs", VIns), Optional(d, "coinoutputs", VOuts), Optional(d, "blockstakeinputs", VIns),
                                    Optional(d, "blockstakeoutputs", VStakeOuts), Optional(d, "minerfees", VFees), Optional(d, "arbitrarydata", VData)>>)
                [] v = "128" -> All(<<Part(d, "nonce", VNonce), Part(d, "mintfulfillment", VFulf), Part(d, "mintcondition", VAnyCond), Part(d, "minerfees", VFees), Part(d, "arbitrarydata", VData)>>)
                [] v = "129" -> All(<<Part(d, "nonce", VNonce), Part(d, "mintfulfillment", VFulf), Part(d, "coinoutputs", VOuts), Part(d, "minerfees", VFees), Part(d, "arbitrarydata", VData)>>)
                [] v = "144" -> All(<<Optional(d, "addresses", VNets), Optional(d, "names", VNames), Part(d, "nrofmonths", VMonths), Part(d, "identification", VIdent)>> \o money)
                [] v = "145" -> All(<<Part(d, "id", VId), Optional(d, "addresses", VNetsUpdate), Optional(d, "names", VNamesUpdate), Part(d, "nrofmonths", VMonths), Part(d, "signature", VSig)>> \o money)
                [] v = "146" -> All(<<Part(d, "sender", VSide), Part(d, "receiver", VSide), Part(d, "names", VNames)>> \o money)
                [] v = "208" -> All(<<Part(d, "address", VErc20), Part(d, "value", VAmount)>> \o money)
                [] v = "209" -> All(<<Part(d, "address", VAddr), Part(d, "value", VAmount), Part(d, "txfee", VAmount), Part(d, "blockid", VErc32), Part(d, "txid", VErc32)>>)
                [] v = "210" -> All(<<Part(d, "pubkey", VPk), Part(d, "signature", VSig), Part(d, "regfee", VRegFee)>> \o money)
(* the parts that mean something, and where they may stand *)
Final == "leaf"
Fields(t) ==
  LET money == [txfee |-> Final, coininputs |-> "in", refundcoinoutput |-> "out"]
  IN CASE t = "in" -> [parentid |-> Final, fulfillment |-> "fulf"]
       [] t = "out" -> [value |-> Final, condition |-> "cond"]
       [] t = "cond" -> [type |-> Final, data |-> "cond"]
       [] t = "cond1" -> [unlockhash |-> Final]
       [] t = "cond2" -> [sender |-> Final, receiver |-> Final, hashedsecret |-> Final, timelock |-> Final]
       [] t = "cond3" -> [locktime |-> Final, condition |-> "cond"]
       [] t = "cond4" -> [minimumsignaturecount |-> Final, unlockhashes |-> Final]
       [] t = "fulf" -> [type |-> Final, data |-> "fulf"]
       [] t = "fulf1" -> [publickey |-> Final, signature |-> Final]
       [] t = "fulf2" -> [publickey |-> Final, signature |-> Final, secret |-> Final]
       [] t = "fulf3" -> [pairs |-> "pair"]
       [] t = "fulf4" -> [x \in {} |-> Final]
       [] t = "pair" -> [publickey |-> Final, signature |-> Final]
       [] t = "side" -> [id |-> Final, signature |-> Final]
       [] t = "update" -> [add |-> Final, remove |-> Final]
       [] t = "oldin" -> [parentid |-> Final, unlocker |-> "unlocker"]
       [] t = "unlocker" -> [type |-> Final, condition |-> "pair", fulfillment |-> "pair"]
       [] t = "oldout" -> [value |-> Final, unlockhash |-> Final]
       [] t = "0" -> [coininputs |-> "oldin", coinoutputs |-> "oldout", blockstakeinputs |-> "oldin", blockstakeoutputs |-> "oldout", minerfees |-> Final, arbitrarydata |-> Final]
       [] t = "1" -> [coininputs |-> "in", coinoutputs |-> "out", blockstakeinputs |-> "in", blockstakeoutputs |-> "out", minerfees |-> Final, arbitrarydata |-> Final]
       [] t = "128" -> [nonce |-> Final, mintfulfillment |-> "fulf", mintcondition |-> "cond", minerfees |-> Final, arbitrarydata |-> Final]
       [] t = "129" -> [nonce |-> Final, mintfulfillment |-> "fulf", coinoutputs |-> "out", minerfees |-> Final, arbitrarydata |-> Final]
       [] t = "144" -> [nrofmonths |-> Final, identification |-> "pair", addresses |-> Final, names |-> Final] @@ money
       [] t = "145" -> [id |-> Final, nrofmonths |-> Final, signature |-> Final, addresses |-> "update", names |-> "update"] @@ money
       [] t = "146" -> [sender |-> "side", receiver |-> "side", names |-> Final] @@ money
       [] t = "208" -> [address |-> Final, value |-> Final] @@ money
       [] t = "209" -> [address |-> Final, value |-> Final, txfee |-> Final, blockid |-> Final, txid |-> Final]
       [] t = "210" -> [pubkey |-> Final, signature |-> Final] @@ money
RECURSIVE TrimAs(_, _)
TrimAs(j, t) ==
  IF t = Final THEN j
  ELSE IF j[1] = "a" THEN <<"a", [k \in 1..Len(j[2]) |-> TrimAs(j[2][k], t)]>>
  ELSE IF j[1] = "o" THEN
    LET f == Fields(t)
        kind(k) == IF k = "data" THEN (IF At(j, "type")[1] = "i" /\ At(j, "type")[2] \in {"1", "2", "3", "4"} THEN f[k] \o At(j, "type")[2] ELSE Final) ELSE f[k]
    IN <<"o", [k \in DOMAIN j[2] \cap DOMAIN f |-> TrimAs(j[2][k], kind(k))]>>
  ELSE j
Trim(tx) == TrimAs(TData(tx), ToString(Ver(tx)))
(* the fee of a registration is fixed, and its addresses follow from the public key; all three are left out above *)
Derived(tx) == Ver(tx) # 210 \/ (GetStr(TData(tx), "tftaddress") = PkAddr(GetStr(TData(tx), "pubkey")) /\ GetStr(TData(tx), "erc20address") = "0x" \o ToHex(ERC20Of(PkAddr(GetStr(TData(tx), "pubkey")))))
IsExact(j) ==
  /\ Verdict(j) = 3
  /\ DOMAIN j[2] \subseteq {"version", "data"}
  /\ (Ver(j) = 210 => IsPk(GetStr(TData(j), "pubkey")) /\ Derived(j))
  /\ DOMAIN TData(j)[2] \ {"tftaddress", "erc20address", "regfee"} \subseteq DOMAIN Fields(ToString(Ver(j)))
  /\ \A k \in DOMAIN TData(j)[2] \cap DOMAIN Trim(j)[2] : Trim(j)[2][k] = TData(j)[2][k]

(* one form of all that stands for the same *)
DropKey(j, ks) == [k \in DOMAIN j \ ks |-> j[k]]
LongHex(u) == Len(u) >= 40 /\ IsHex(StrOf(u))
NormText(s) ==
  LET u == Utf8(s) pre == Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120}
  IN IF s = NoKey THEN ""
     ELSE IF IsPk(s) THEN StrOf(LowerText(u))
     ELSE IF pre /\ LongHex(SubSeq(u, 3, Len(u))) THEN StrOf(LowerText(SubSeq(u, 3, Len(u))))
     ELSE IF LongHex(u) THEN (IF NoughtsOnly(u) THEN "" ELSE StrOf(LowerText(u)))
     ELSE IF u # <<>> /\ AllDigits(u) THEN ToDec(Dec(s))
     ELSE IF ReadJson(<<"s", s>>).r \in {"ok", "may"} THEN ToDec(ReadJson(<<"s", s>>).n)
     ELSE s
RECURSIVE Norm(_)
Norm(j) ==
  CASE j[1] = "s" -> (IF NormText(j[2]) \in {"", "0", "0x", "0X"} THEN <<"n">> ELSE <<"s", NormText(j[2])>>)
    [] j[1] = "i" -> (IF j[2] = "0" THEN <<"n">> ELSE j)
    [] j[1] = "a" -> (IF j[2] = <<>> THEN <<"n">> ELSE <<"a", [k \in 1..Len(j[2]) |-> Norm(j[2][k])]>>)
    [] j[1] = "o" -> (LET r == [k \in DOMAIN j[2] |-> Norm(j[2][k])]
                          ks == {k \in DOMAIN r : r[k][1] # "n"}
                      IN IF ks = {} THEN <<"n">> ELSE <<"o", [k \in ks |-> r[k]]>>)
    [] j[1] = "b" -> (IF j[2] THEN j ELSE <<"n">>)
    [] OTHER -> j
(* version 0 in the terms of version 1 *)
NewIn(ci) == <<"o", [parentid |-> At(ci, "parentid"),
                     fulfillment |-> <<"o", [type |-> <<"i", "1">>,
                        data |-> <<"o", [publickey |-> At(GetObj(GetObj(ci, "unlocker"), "condition"), "publickey"),
                                         signature |-> At(GetObj(GetObj(ci, "unlocker"), "fulfillment"), "signature")]>>]>>]>>
NewOut(co) == <<"o", [value |-> At(co, "value"), condition |-> <<"o", [type |-> <<"i", "1">>, data |-> <<"o", [unlockhash |-> At(co, "unlockhash")]>>]>>]>>
Renewed(j) ==
  LET d == TData(j)
      all(k, f(_)) == <<"a", Map(f, GetArr(d, k))>>
  IN <<"o", [version |-> <<"i", "1">>,
             data |-> <<"o", [coininputs |-> all("coininputs", NewIn), coinoutputs |-> all("coinoutputs", NewOut), blockstakeinputs |-> all("blockstakeinputs", NewIn),
                              blockstakeoutputs |-> all("blockstakeoutputs", NewOut), minerfees |-> At(d, "minerfees"), arbitrarydata |-> At(d, "arbitrarydata")]>>]>>
Modern(j) == IF Ver(j) = 0 THEN Renewed(j) ELSE j
(* a and b are the same transaction *)
Same(a, b) == Ver(a) = Ver(b) /\ Norm(Trim(a)) = Norm(Trim(b))

(* complete but for signatures: a swap can be encoded once it is known whether it is claimed or refunded *)
FulfDone(j) == FType(j) = 2 => Has(FData(j), "secret") /\ GetStr(FData(j), "secret") # ""
Done(tx) ==
  /\ Ver(tx) # 0 => \A ci \in ToSet(CoinIns(tx) \o StakeIns(tx)) : FulfDone(Fulf(ci))
  /\ Ver(tx) \in {128, 129} => FulfDone(GetObj(TData(tx), "mintfulfillment"))
=============================================================================
