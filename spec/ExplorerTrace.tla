----------------------------- MODULE ExplorerTrace -----------------------------
(* Queries of the real client over explorers on the loopback network,      *)
(* replayed through Explorer: whom the client asked, what it asked them,    *)
(* and what it gave.                                                        *)
EXTENDS Explorer, TxJson, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, i, bad, hit
vars == <<t, i, bad, hit>>

C(p, n, ok) == IF ok THEN {} ELSE {<<p, n>>}
CIf(cond, set) == IF cond THEN set ELSE {}
M(e) == IF e.op \in {"get", "mint"} THEN "GET" ELSE "POST"
P(e) == IF M(e) = "GET" THEN "X01" ELSE "X02"
Endpoint(e) == CASE e.op = "put" -> "/transactionpool/transactions"
                 [] e.op = "mint" -> (IF e.height < 0 THEN "/explorer/mintcondition" ELSE "/explorer/mintcondition/" \o ToString(e.height))
                 [] OTHER -> e.endpoint
Accepted(e) == e.res.k = "ok"
Listening(b) == b.kind \notin {"unresolved", "refused", "timeout", "unroutable", "dropped"}
StartsWith(x, y) == Len(Utf8(x)) >= Len(Utf8(y)) /\ SubSeq(Utf8(x), 1, Len(Utf8(y))) = Utf8(y)

--------------------------------------------------------------------------------
(* what was sent *)
Payload(e, r) ==
  CASE e.op = "post" /\ e.data[1] = "dict" -> r.json = e.data[2]
    [] e.op = "post" -> r.body = ToHex(Utf8(e.data[2]))
    [] e.op = "put" -> (IF IsExact(e.json) /\ Ver(e.json) # 0 THEN r.json = e.json ELSE r.json[1] = "o" /\ Same(Modern(e.json), Modern(r.json)))
    [] OTHER -> r.body = ""
Request(e, r) ==
  /\ r.whole /\ r.verb = M(e) /\ r.path = e.base \o Endpoint(e) /\ r.agent = "Rivine-Agent"
  /\ r.host = "explorer" \o ToString(r.by) \o ".test"
  /\ (M(e) = "POST" => StartsWith(r.type, "application/json"))
  /\ Payload(e, r)

--------------------------------------------------------------------------------
(* what an answer says: "ok" with a value, "no" if it says nothing of the kind, or "free" *)
Whole(b) == b.body[1] = "j" /\ Len(b.body) = 2
IdOf(b) ==
  IF ~Whole(b) \/ b.body[2][1] # "o" THEN "no"
  ELSE LET x == At(b.body[2], "transactionid")
       IN IF x[1] # "s" \/ Len(Utf8(x[2])) # 64 \/ ~IsHex(x[2]) THEN (IF x[1] = "s" /\ StartsWith(x[2], "0x") THEN "free" ELSE "no")
          ELSE IF StrOf(LowerText(Utf8(x[2]))) = x[2] THEN "ok" ELSE "free"
MintOf(b) ==
  IF ~Whole(b) \/ b.body[2][1] # "o" \/ ~Has(b.body[2], "mintcondition") THEN "no"
  ELSE LET v == VCond(At(b.body[2], "mintcondition"), TRUE) IN IF v = 0 THEN "no" ELSE IF v = 3 THEN "ok" ELSE "free"
Says(e, b) == CASE e.op = "put" -> IdOf(b) [] e.op = "mint" -> MintOf(b) [] OTHER -> "ok"
Gave(e, n) ==
  LET b == e.bs[n] IN
  CASE e.op = "put" -> e.res.id = At(b.body[2], "transactionid")[2]
    [] e.op = "mint" -> e.res.json = At(b.body[2], "mintcondition")
    [] OTHER -> e.res.hex = e.hexes[n]

--------------------------------------------------------------------------------
Query(e) ==
  LET m == M(e) p == P(e) q == e.asked n == Len(q)
      os == Outcomes(e.bs, q, m)
      fails == {o.why : o \in {x \in os : x.end = "fails"}}
      given == \E o \in os : o.end = "body"
      says == IF given THEN Says(e, e.bs[q[n]]) ELSE "no"
  IN C(p, "no explorer is asked twice", \A a, b \in 1..n : a # b => q[a] # q[b])
     \cup C(p, "another explorer is asked only when one cannot be reached", \A k \in 2..n : GoesOn(e.bs[q[k - 1]], m))
     \cup C(p, "every explorer that is asked gets one request, which is the intended one",
            /\ [k \in 1..Len(e.requests) |-> e.requests[k].by] = SelectSeq(q, LAMBDA x : Listening(e.bs[x]))
            /\ \A k \in 1..Len(e.requests) : Request(e, e.requests[k]))
     \cup (IF Accepted(e)
           THEN C(p, "an answer is given only if a reached explorer gave it", given /\ says # "no")
                \cup CIf(given /\ says = "ok", C(p, "the answer is exactly that of the reached explorer", Gave(e, q[n])))
           ELSE C(p, "fails only if every explorer was unreachable or a reached one failed", fails # {} \/ (given /\ says # "ok"))
                \cup CIf(fails # {} /\ "any" \notin fails, C(p, "fails with the error that belongs to it",
                       e.res.class \in fails /\ e.res.endpoint = Endpoint(e) /\ (e.res.class = "unavailable" => e.res.of))))
Labels(e) ==
  LET n == Len(e.asked) IN
  IF n = 0 THEN {e.op \o " asks nobody"}
  ELSE {e.op \o " ends at " \o e.bs[e.asked[n]].kind \o " " \o ToString(e.bs[e.asked[n]].status) \o (IF Accepted(e) THEN " with an answer" ELSE " with error " \o e.res.class)}
       \cup {e.op \o " goes on after " \o e.bs[e.asked[k]].kind : k \in 1..(n - 1)}

Ev == Traces[t].events
Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ hit = {}
Step ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN bad' = bad \cup {<<i, x[1], x[2]>> : x \in Query(e)} /\ hit' = hit \cup Labels(e)
  /\ i' = i + 1 /\ t' = t
Finish ==
  /\ i = Len(Ev) + 1
  /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> Len(Ev), bad |-> SetToSeq(bad), hit |-> SetToSeq(hit)]))
  /\ i' = i + 1 /\ UNCHANGED <<t, bad, hit>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===============================================================================
