------------------------------ MODULE AnswersTrace ------------------------------
(* What the real client reported for the answers it got, held against what  *)
(* the answers say.                                                         *)
EXTENDS Answers, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, i, bad, hit
vars == <<t, i, bad, hit>>
C(n, ok) == IF ok THEN {} ELSE {<<"X03", n>>}
Accepted(e) == e.res.k = "ok"
First(e) == e.answers[1][2]
Second(e) == e.answers[2][2]
IdsOf(e) == IF e.kind = "coin" THEN "coinoutputids" ELSE "blockstakeoutputids"
Grade(e) ==
  CASE e.kind = "tx" -> OfTx(First(e), e.arg)
    [] e.kind = "block" -> OfBlockId(First(e), e.arg)
    [] e.kind = "at" -> OfBlockAt(First(e), e.arg)
    [] e.kind \in {"coin", "stake"} -> OfOutput(First(e), e.arg, IF e.kind = "coin" THEN "coinoutputid" ELSE "blockstakeoutputid", IdsOf(e))
    [] e.kind = "addr" -> OfAddr(First(e), e.arg)
    [] e.kind = "info" -> (IF OfTip(First(e)) = 0 THEN 0 ELSE IF Get(First(e), "blockid") # <<"s", e.arg>> THEN Min2(1, OfTip(First(e))) ELSE OfBlockId(Second(e), e.arg))
    [] e.kind = "mint" -> OfMint(First(e))
    [] e.kind = "erc" -> OfErc(First(e))
    [] e.kind = "bot" -> OfBot(First(e))
Reported(e) ==
  CASE e.kind = "tx" -> TxReported(e.res.r, Get(First(e), "transaction"))
    [] e.kind \in {"block", "at"} -> BlockReported(e.res.r, Get(First(e), "block"))
    [] e.kind \in {"coin", "stake"} -> OutputReported(e.res.r, First(e), e.arg, IdsOf(e))
    [] e.kind = "addr" -> AddrReported(e.res.r, First(e), e.arg)
    [] e.kind = "info" -> InfoReported(e.res.r, Get(Second(e), "block"))
    [] e.kind = "mint" -> AsCond(e.res.r, Get(First(e), "mintcondition"))
    [] e.kind = "erc" -> ErcReported(e.res.r, Get(First(e), "erc20info"))
    [] e.kind = "bot" -> BotReported(e.res.r, First(e))
Answer(e) ==
  LET v == Grade(e) IN
  C("a right answer is reported", v = 3 => Accepted(e))
  \cup C("an answer of another kind, to another question or without its parts is refused", v = 0 => ~Accepted(e))
  \cup (IF Accepted(e) /\ v >= 2 THEN C("what the explorer said is what is reported", Reported(e)) ELSE {})
Labels(e) == {e.kind \o " verdict " \o ToString(Grade(e)) \o (IF Accepted(e) THEN " reported" ELSE " refused")}

Ev == Traces[t].events
Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ hit = {}
Step ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN bad' = bad \cup {<<i, x[1], x[2]>> : x \in Answer(e)} /\ hit' = hit \cup Labels(e)
  /\ i' = i + 1 /\ t' = t
Finish ==
  /\ i = Len(Ev) + 1
  /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> Len(Ev), bad |-> SetToSeq(bad), hit |-> SetToSeq(hit)]))
  /\ i' = i + 1 /\ UNCHANGED <<t, bad, hit>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=================================================================================
