-------------------------------- MODULE Rules --------------------------------
(* The rules of the chain that a transaction must satisfy: who may spend   *)
(* an output, with which signatures, when, and what must be paid.          *)
(* Every violated rule is named, so that a verdict is a set of names.      *)
EXTENDS Wire

--------------------------------------------------------------------------------
(* Locks: values below 500,000,000 are heights, others are unix seconds *)
LockThreshold == BOfInt(500000000)
LockedAt(lock, height, time) ==          \* time is a BigNat
  IF BLt(lock, LockThreshold) THEN BLt(BOfInt(height), lock) ELSE BLt(time, lock)

--------------------------------------------------------------------------------
(* Signatures. A fulfillment is valid when it satisfies the condition of   *)
(* the output it spends. The message that is signed contains the position  *)
(* of the input, and for some conditions the signing key and the secret.   *)
PairSig(p) == Hex(GetStr(p, "signature"))
PairSigned(p) == Has(p, "signature") /\ GetStr(p, "signature") # ""
PairKeyOK(p) == Has(p, "publickey") /\ IsPk(GetStr(p, "publickey"))
PairVerify(tx, p, x) ==
  PairKeyOK(p) /\ PairSigned(p) /\ EdVerify(PkBytes(GetStr(p, "publickey")), SigHash(tx, x), PairSig(p))
(* positions are absent from the messages of minting transactions *)
Pos(i) == IF i = 0 THEN <<>> ELSE LE8(i - 1)
MultiX(tx, i, p) == Pos(i) \o EncPk(Fmt(tx), GetStr(p, "publickey"))
GivenSecret(d) == Has(d, "secret") /\ GetStr(d, "secret") \notin {"", ToHex(Zeros(32))}
SwapX(tx, i, d) == Pos(i) \o EncPk(Fmt(tx), GetStr(d, "publickey"))
                     \o (IF GivenSecret(d) THEN Hex(GetStr(d, "secret")) ELSE <<>>)

(* the names of what is wrong with fulfillment j of condition c for input i *)
FulfErrors(tx, i, c, j, height, time) ==
  LET in == Inner(c) t == CType(in) cd == CData(in) d == FData(j)
      pairs == GetArr(d, "pairs")
      keyAddr == PkAddr(GetStr(d, "publickey"))
  IN (IF LockedAt(LockOf(c), height, time) THEN {"locked"} ELSE {}) \cup
  (IF ~FulfOK(j) THEN {"malformed"} ELSE
   CASE t = 0 -> IF FType(j) # 1 THEN {"kind"} ELSE IF PairVerify(tx, d, Pos(i)) THEN {} ELSE {"signature"}
     [] t = 1 ->
          IF FType(j) # 1 THEN {"kind"}
          ELSE IF ~PairKeyOK(d) THEN {"unsigned"}
          ELSE (IF keyAddr = GetStr(cd, "unlockhash") THEN {} ELSE {"owner"})
               \cup (IF PairVerify(tx, d, Pos(i)) THEN {} ELSE {"signature"})
     [] t = 2 ->
          IF FType(j) # 2 THEN {"kind"}
          ELSE IF ~PairKeyOK(d) THEN {"unsigned"}
          ELSE (IF PairVerify(tx, d, SwapX(tx, i, d)) THEN {} ELSE {"signature"})
               \cup (IF GivenSecret(d)
                     THEN (IF keyAddr = GetStr(cd, "receiver") THEN {} ELSE {"owner"})
                          \cup (IF Sha256(Hex(GetStr(d, "secret"))) = Hex(GetStr(cd, "hashedsecret")) THEN {} ELSE {"secret"})
                     ELSE (IF keyAddr = GetStr(cd, "sender") THEN {} ELSE {"owner"})
                          \cup (IF LockedAt(GetBig(cd, "timelock"), height, time) THEN {"early"} ELSE {}))
     [] t = 4 ->
          IF FType(j) # 3 THEN {"kind"}
          ELSE (IF Len(pairs) < MinSigs(in) THEN {"unsigned"} ELSE {})
               \cup (IF \A p \in ToSet(pairs) : PairKeyOK(p) /\ PkAddr(GetStr(p, "publickey")) \in ToSet(Owners(in))
                     THEN {} ELSE {"owner"})
               \cup (IF \A a, b \in 1..Len(pairs) : a # b => pairs[a] # pairs[b] /\
                          GetStr(pairs[a], "publickey") # GetStr(pairs[b], "publickey") THEN {} ELSE {"twice"})
               \cup (IF \A p \in ToSet(pairs) : PairVerify(tx, p, MultiX(tx, i, p)) THEN {} ELSE {"signature"}))

(* version 0 transactions carry the key and the signature in an unlocker *)
OldErrors(tx, i, c, ci) ==
  LET pk == GetStr(GetObj(GetObj(ci, "unlocker"), "condition"), "publickey")
      sg == GetStr(GetObj(GetObj(ci, "unlocker"), "fulfillment"), "signature")
  IN IF IsPk(pk) /\ PkAddr(pk) = CondAddr(c) /\ EdVerify(PkBytes(pk), SigHash(tx, LE8(i - 1)), Hex(sg)) THEN {} ELSE {"signature"}
=============================================================================
