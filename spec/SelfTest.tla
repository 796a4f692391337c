------------------------------- MODULE SelfTest -------------------------------
(* The specification against ground truth: published vectors of the        *)
(* primitives, the transaction vectors of the chain's reference            *)
(* implementation, and transactions (with their output identifiers and     *)
(* signatures) of the real chain.                                          *)
EXTENDS Rules, TLC, Json, IOUtils
VARIABLE done

Vectors == JsonDeserialize(IOEnv.VP_CORPUS \o "/vectors.json")
Chain == JsonDeserialize(IOEnv.VP_CORPUS \o "/chain.json")

B(s) == Utf8(s)
Prims ==
  /\ Hex("00ffAb") = <<0, 255, 171>> /\ ToHex(<<0, 255, 171>>) = "00ffab"
  /\ IsHex("") /\ ~IsHex("0") /\ ~IsHex("0g") /\ IsDec("0123") /\ ~IsDec("") /\ ~IsDec("1a") /\ ~IsDec("-1")
  /\ Utf8("a:b") = <<97, 58, 98>> /\ StrOf(<<97, 58>>) = "a:" /\ Base64("AQID") = <<1, 2, 3>>
  /\ Cat(<< <<1>>, <<>>, <<2, 3>> >>) = <<1, 2, 3>>
  /\ ToHex(Sha256(B("abc"))) = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ ToHex(Blake(B(""))) = "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8"
  /\ ToHex(Blake(B("abc"))) = "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319"
  \* RFC 8032, test 2
  /\ LET sk == Hex("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")
         pk == Hex("3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c")
         sg == Hex("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00")
     IN EdPublic(sk) = pk /\ EdVerify(pk, <<114>>, sg) /\ ~EdVerify(pk, <<115>>, sg)
Numbers ==
  /\ \A a \in {0, 1, 255, 256, 257, 65535, 65536, 99999, 500000000, 2147483647} :
       BInt(BOfInt(a)) = a /\ Dec(ToString(a)) = BOfInt(a) /\ ToDec(BOfInt(a)) = ToString(a)
  /\ \A a, b \in {0, 1, 200, 255, 256, 40000, 1000000} :
       /\ BAdd(BOfInt(a), BOfInt(b)) = BOfInt(a + b) /\ (BLeq(BOfInt(a), BOfInt(b)) <=> a <= b)
       /\ a >= b => BSub(BOfInt(a), BOfInt(b)) = BOfInt(a - b)
       /\ b < 2000 => BMul(BOfInt(a), b) = BOfInt(a * b)
  /\ BMul(Dec("100000000000000000000"), 1000) = Dec("100000000000000000000000")
  /\ BSub(Dec("18446744073709551616"), <<1>>) = Dec("18446744073709551615")

X(tx, c) ==                       \* the extra objects of a signature hash vector
  CASE c[2] = "SPECIFIER_SENDER" -> B("sender") [] c[2] = "SPECIFIER_RECEIVER" -> B("receiver")
    [] OTHER -> LE8(BInt(Dec(c[2])))
CheckOK(tx, c) ==
  LET got == CASE c[1] = "signature_hash_get" -> ToHex(SigHash(tx, X(tx, c)))
               [] c[1] = "binary_encode" -> ToHex(BinEncode(tx))
               [] c[1] = "coin_outputid_new" -> OutputId(tx, "coin", BInt(Dec(c[2])))
               [] c[1] = "blockstake_outputid_new" -> OutputId(tx, "stake", BInt(Dec(c[2])))
  IN got = c[3] \/ (PrintT(<<"vector", Ver(tx), c[1], c[2], got>>) /\ FALSE)
VectorsOK == \A v \in ToSet(Vectors) : \A c \in ToSet(v.checks) : CheckOK(v.json, c)

NoHeight == 2000000000             \* everything on the chain is unlocked by now
ChainOK(t) ==
  LET tx == Get(t, "rawtransaction") v == Ver(tx)
      parents == GetArr(t, "coininputoutputs") ins == CoinIns(tx)
      ids == Map(LAMBDA x : x[2], GetArr(t, "coinoutputids"))
      sids == Map(LAMBDA x : x[2], GetArr(t, "blockstakeoutputids"))
      err(i) == IF v = 0 THEN OldErrors(tx, i, OutCond(parents[i]), ins[i])
                ELSE FulfErrors(tx, i, OutCond(parents[i]), Fulf(ins[i]), NoHeight, BOfInt(NoHeight))
      bad(why) == PrintT(<<"chain", GetStr(t, "id"), v, why>>) /\ FALSE
  IN /\ \A i \in 1..Len(ids) : OutputId(tx, "coin", i - 1) = ids[i] \/ bad(<<"coin output", i>>)
     /\ \A i \in 1..Len(sids) : OutputId(tx, "stake", i - 1) = sids[i] \/ bad(<<"stake output", i>>)
     /\ \A i \in 1..Len(ins) : err(i) = {} \/ bad(<<"input", i, err(i)>>)
ChainsOK == \A t \in ToSet(Chain) : ChainOK(t)

Init == done = FALSE
Next == done' = TRUE /\ Assert(Prims, "prims") /\ Assert(Numbers, "numbers") /\ Assert(VectorsOK, "vectors") /\ Assert(ChainsOK, "chain")
Spec == Init /\ [][Next]_done
=============================================================================
