------------------------------ MODULE ExplorerGen ------------------------------
(* Queries over explorers that fail in all ways, as programs for the real  *)
(* client: all behaviours of a few explorers in turn ("Each"), or random    *)
(* histories of queries and submissions.                                    *)
EXTENDS CodecGen
CONSTANTS Size, Portion                   \* Each: how many explorers, how many queries per program

Be(k, s, gone, body) == [kind |-> k, status |-> s, gone |-> gone, body |-> body, how |-> "plain", at |-> 50, raw |-> "", redirect |-> FALSE]
T(x) == <<"t", x>>
Note(n) == "answer of explorer " \o DecOf(n)
Garbage(x) == [Be("garbage", 0, FALSE, T("")) EXCEPT !.raw = ToHex(Utf8(x))]
GarbageTexts == <<"SSH-2.0-OpenSSH_7.4\r\n", "HTTP/1.1 two hundred OK\r\n\r\n{}", "{\"transactionid\":\"00\"}", "<html></html>\n\n", "\r\n">>
GoneTexts == <<"unrecognized hash used as input to /explorer/hash", "{\"message\":\"error: not found\"}", "unlockhash not found">>
OtherTexts == <<"", "{\"message\":\"syncing\"}", "internal error", "found", "unrecognised", "Not  Found", "unrecognized">>
Table(n) ==
  <<Be("unresolved", 0, FALSE, T("")), Be("refused", 0, FALSE, T("")), Be("timeout", 0, FALSE, T("")), Be("unroutable", 0, FALSE, T("")),
    Be("dropped", 0, FALSE, T("")), Be("reset", 0, FALSE, T("")), Be("closed", 0, FALSE, T("")), Garbage(GarbageTexts[1]),
    Be("reply", 200, FALSE, T(Note(n))), Be("reply", 204, FALSE, T("")), Be("reply", 400, TRUE, T(GoneTexts[1])), Be("reply", 400, FALSE, T("syncing")),
    Be("reply", 404, FALSE, T("")), Be("reply", 500, TRUE, T("not found")), Be("cut", 200, FALSE, T(Note(n))), Be("cut", 500, FALSE, T(Note(n))),
    Be("reply", 202, FALSE, T(Note(n)))>>
NTable == Len(Table(1))
Digit(q, n) == 1 + ((q \div (NTable ^ (n - 1))) % NTable)
Total == NTable ^ Size
Plainly(op, endpoint, bs) == [op |-> op, endpoint |-> endpoint, bs |-> bs, order |-> "given", data |-> <<"text", "{}">>, height |-> 0, form |-> "", json |-> <<"n">>]
EachCase(q) ==
  LET bs == [n \in 1..Size |-> Table(n)[Digit(q, n)]]
  IN <<Plainly("get", "/explorer/blocks/" \o DecOf(q), bs), [Plainly("post", "/transactionpool/transactions", bs) EXCEPT !.data = <<"text", "{\"n\":" \o DecOf(q) \o "}">>]>>
EachProgram(p) ==
  LET last == IF (p + 1) * Portion < Total THEN Portion ELSE Total - p * Portion
      f[k \in 0..last] == IF k = 0 THEN <<>> ELSE f[k - 1] \o EachCase(p * Portion + k - 1)
  IN f[last]

--------------------------------------------------------------------------------
(* random histories *)
Statuses == <<200, 201, 202, 203, 206, 207, 226, 204, 400, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 504>>
HowQ == <<"plain", "plain", "pieces", "chunked", "close">>
IdJunk(g) == CASE N(g, 8) = 0 -> <<"n">> [] N(g, 8) = 1 -> S("") [] N(g, 8) = 2 -> S(Digits(g, 63)) [] N(g, 8) = 3 -> S(ToHex(Bytes(g, 31)))
               [] N(g, 8) = 4 -> S(ToHex(Bytes(g, 33))) [] N(g, 8) = 5 -> A(<<S(ToHex(g))>>) [] N(g, 8) = 6 -> O([x |-> S("y")]) [] OTHER -> S("g" \o Digits(g, 63))
IdAnswer(g) ==
  CASE N(g, 10) = 0 -> O([transactionid |-> IdJunk(Sub(g, 1))])
    [] N(g, 10) = 1 -> Pick(Sub(g, 1), <<O([message |-> S("error validating transaction")]), O([transactionids |-> S(ToHex(g))]), A(<<O([transactionid |-> S(ToHex(g))])>>), S(ToHex(g)),
                                         <<"n">>, I(<<5>>), O([txid |-> S(ToHex(g))])>>)
    [] N(g, 10) = 2 -> O([transactionid |-> S(ToHex(Sub(g, 2))), message |-> S("ok")])
    [] OTHER -> O([transactionid |-> S(ToHex(Sub(g, 3)))])
MintAnswer(g) ==
  CASE N(g, 10) = 0 -> O([mintcondition |-> Pick(Sub(g, 1), <<S("x"), I(<<1>>), A(<<Single(g)>>), O([type |-> I(<<7>>)]), O([type |-> I(<<1>>), data |-> <<"n">>])>>)])
    [] N(g, 10) = 1 -> Pick(Sub(g, 1), <<O([condition |-> Single(g)]), Single(g), A(<<>>), <<"n">>>>)
    [] OTHER -> O([mintcondition |-> Cond(Sub(g, 2))])
Answer(op, g) ==
  LET j == CASE op = "put" -> IdAnswer(Sub(g, 1)) [] op = "mint" -> MintAnswer(Sub(g, 1)) [] OTHER -> O([n |-> I(Big(g, 3)), t |-> S(ToHex(Bytes(g, N(Sub(g, 2), 400))))])
      k == N(Sub(g, 3), 20)
  IN IF k = 0 /\ j[1] \in {"o", "a"} THEN <<"j", j, N(Sub(g, 4), 100)>>
     ELSE IF k = 1 THEN <<"x", ToHex(Pick(Sub(g, 4), <<<<>>, <<255, 254>>, <<123, 34, 195, 40>>, <<0>>>>))>>
     ELSE IF k = 2 THEN T(Pick(Sub(g, 4), <<"", "404 page not found", "<html>", "{\"transactionid\":}", "{'transactionid':'00'}">>))
     ELSE <<"j", j>>
AnyBe(op, g) ==
  LET x == Sub(g, 1) IN
  CASE N(g, 100) < 34 -> [Be("reply", 200, FALSE, Answer(op, x)) EXCEPT !.how = Pick(Sub(g, 2), HowQ)]
    [] N(g, 100) < 64 -> Be(Pick(x, <<"unresolved", "refused", "refused", "timeout", "unroutable", "dropped", "reset", "closed">>), 0, FALSE, T(""))
    [] N(g, 100) < 69 -> Garbage(Pick(x, GarbageTexts))
    [] N(g, 100) < 79 -> [Be("cut", IF Chance(x, 70) THEN 200 ELSE Pick(x, <<400, 500, 404>>), FALSE, Answer(op, Sub(x, 1))) EXCEPT !.at = N(Sub(g, 3), 100), !.how = Pick(Sub(g, 2), <<"plain", "chunked">>)]
    [] N(g, 100) < 83 /\ op \in {"put", "post"} -> [Be("reply", Pick(x, <<301, 302, 303, 307, 308>>), FALSE, T("")) EXCEPT !.redirect = TRUE]
    [] OTHER -> LET s == Pick(x, Statuses) gone == Chance(Sub(g, 4), 50)
                IN [Be("reply", s, gone, IF gone THEN T(Pick(Sub(g, 5), GoneTexts)) ELSE IF Chance(Sub(g, 6), 20) THEN <<"x", "fffe80">> ELSE T(Pick(Sub(g, 5), OtherTexts)))
                      EXCEPT !.how = IF s = 200 THEN "plain" ELSE Pick(Sub(g, 2), HowQ)]
(* mostly all but one explorer unreachable in longer lists *)
BesFor(op, g, n) ==
  LET down == Chance(Sub(g, 200), 45) up == 1 + N(Sub(g, 201), n)
  IN [k \in 1..n |-> IF down /\ k # up THEN Be(Pick(Sub(g, k), <<"unresolved", "refused", "timeout", "unroutable", "dropped", "reset", "closed">>), 0, FALSE, T("")) ELSE AnyBe(op, Sub(g, k))]
Endpoints(g) == CASE N(g, 5) = 0 -> "/explorer" [] N(g, 5) = 1 -> "/explorer/hashes/" \o ToHex(g) [] N(g, 5) = 2 -> "/explorer/blocks/" \o DecOf(N(Sub(g, 1), 100000))
                  [] N(g, 5) = 3 -> "/explorer/whois/3bot/name" \o DecOf(N(Sub(g, 1), 100)) \o ".thing" [] OTHER -> "/explorer/3bot/" \o DecOf(1 + N(Sub(g, 1), 100))
QueryCase(g, n) ==
  LET op == CASE Kind = "Submit" -> Pick(g, <<"put", "put", "put", "post">>) [] OTHER -> Pick(g, <<"get", "get", "get", "mint">>)
      x == Sub(g, 1)
  IN [op |-> op, endpoint |-> IF op = "post" THEN "/transactionpool/transactions" ELSE Endpoints(Sub(g, 2)), bs |-> BesFor(op, Sub(g, 3), n), order |-> ToHex(SubSeq(g, 1, 4)),
      data |-> Pick(Sub(g, 4), <<<<"dict", O([a |-> S("x\"y"), n |-> I(Big(Sub(g, 5), 9))])>>, <<"text", "{\"version\":1,\"data\":{\"arbitrarydata\":\"\"}}">>, <<"bytes", "{}">>>>),
      height |-> IF Chance(Sub(g, 6), 50) THEN N(Sub(g, 7), 1000) ELSE 0 - 1,
      form |-> Pick(Sub(g, 8), <<"object", "object", "object", "dict", "text", "bytes">>), json |-> IF op = "put" THEN TxJ(Sub(g, 9)) ELSE <<"n">>]
RandomProgram(g) == LET n == 1 + N(Sub(g, 300), 5) IN [count |-> n, base |-> IF Chance(Sub(g, 301), 20) THEN "/api" ELSE "", cases |-> [k \in 1..Count |-> QueryCase(Sub(g, k), n)]]

--------------------------------------------------------------------------------
EInit == stage = 0 /\ g0 = <<>>
Programs == (Total + Portion - 1) \div Portion
EachStep ==
  /\ Kind = "Each" /\ stage < Programs
  /\ PrintT("PROGRAM " \o ToJson([count |-> Size, base |-> "", cases |-> EachProgram(stage)]))
  /\ stage' = stage + 1 /\ g0' = g0
EMake == Kind # "Each" /\ stage = 1 /\ stage' = 2 /\ g0' = g0 /\ PrintT("PROGRAM " \o ToJson(RandomProgram(g0)))
ENext == EachStep \/ (Kind # "Each" /\ Draw) \/ EMake
ESpec == EInit /\ [][ENext]_<<g0, stage>>
===============================================================================
