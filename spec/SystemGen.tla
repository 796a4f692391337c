------------------------------- MODULE SystemGen -------------------------------
(* Behaviours of System as programs for the real code: random walks over a *)
(* menu of actions, with the details that do not matter to the abstract    *)
(* system (data, the form of a request, ...) drawn as well.                *)
EXTENDS System, Json
CONSTANTS Menu,               \* names of actions, repeated by weight
          Depth,              \* length of a program
          Big                 \* coins come in large (TRUE) or small amounts

R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p
Greedy(E, need) ==            \* one selection: the most valuable first
  LET q == TLCEval(Best(E))
      n == CHOOSE n \in 1..Len(q) : FoldLeft(LAMBDA a, o : a + Value(o), 0, SubSeq(q, 1, n)) >= need
             /\ \A k \in 1..(n - 1) : FoldLeft(LAMBDA a, o : a + Value(o), 0, SubSeq(q, 1, k)) < need
  IN {{q[k] : k \in 1..n}}

--------------------------------------------------------------------------------
(* Domains *)
W == 1..NW
KeyRefs == UNION {Keys(w) : w \in W}
Multis == {<<"m", <<<<1, 0>>, <<2, 0>>>>, 2>>, <<"m", <<<<2, 0>>, <<1, 0>>>>, 1>>, <<"m", <<<<1, 0>>, <<2, 0>>, <<3, 0>>>>, 2>>,
           <<"m", <<<<3, 0>>, <<2, 1>>, <<1, 1>>>>, 3>>, <<"m", <<<<1, 0>>, <<1, 1>>, <<2, 0>>>>, 2>>, <<"m", <<<<1, 1>>, <<9, 0>>>>, 1>>,
           <<"m", <<<<1, 0>>, <<9, 1>>>>, 2>>, <<"m", <<<<2, 1>>>>, 1>>, <<"m", <<<<1, 0>>, <<2, 1>>, <<3, 1>>, <<9, 2>>>>, 3>>}
Councils == {m \in Multis : Owners(m) \subseteq KeyRefs /\ m[3] >= 2}
Foreign == {<<"x", 1>>, <<"x", 2>>}
Nobody == {<<"nil">>}
To(k) == IF k <= 40 THEN R(KeyRefs) ELSE IF k <= 65 THEN R(Foreign) ELSE IF k <= 90 THEN R(Multis) ELSE <<"nil">>
AnyTo(n) == To(R(1..100))
GiveTo(k) == IF k <= 55 THEN R(KeyRefs) ELSE IF k <= 97 THEN R(Multis) ELSE IF k <= 98 THEN R(Foreign) ELSE <<"nil">>
LockNames == {"none", "hp", "he", "hn", "hf", "tp", "te", "t1", "tn", "tf"}
ReqLocks == LockNames \cup {"d60", "d3601"}
Lk(p, S) == IF Chance(p) THEN R(S) ELSE "none"
Vs == IF Big THEN {300, 1000, 2500, 7000} ELSE {1, 2, 3, 5, 8, 20, 100}
Wants == IF Big THEN {1, 10, 100, 400} ELSE {1, 2, 3, 4, 7, 15}
MsOf(w) == {m \in Multis : Owners(m) \cap Keys(w) # {}}
FundedMs(w) == {m \in MsOf(w) : \E o \in DOMAIN outs : outs[o].to = m}
Src(w, k) ==
  IF k <= 45 THEN <<>>
  ELSE IF k <= 60 THEN <<R(Keys(w))>>
  ELSE IF k <= 65 THEN <<<<"k", w, 0>>, <<"k", w, 1>>>>
  ELSE IF k <= 70 THEN <<R(KeyRefs)>>
  ELSE IF FundedMs(w) = {} THEN (IF k <= 72 THEN <<R(Multis)>> ELSE <<>>)
  ELSE IF k <= 88 THEN <<R(FundedMs(w))>>
  ELSE IF k <= 95 THEN <<R(FundedMs(w)), R(Keys(w))>>
  ELSE <<R(FundedMs(w)), R(Multis)>>
RefundChoice(k) == IF k <= 65 THEN <<>> ELSE IF k <= 80 THEN R(KeyRefs) ELSE IF k <= 88 THEN R(Foreign) ELSE IF k <= 97 THEN R(Multis) ELSE <<"nil">>
Names == {"mybot", "chatbot.example", "tf3bot", "x-ray9", "abcde.fghij.klmno", "Upper.Names", "a1234-5678z",
          "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk"}
BadNames == {"", "abcd", "1abcd", "abcd-", "ab_cde", "abcde.fghi", "abcde.", ".abcde", "abcde..fghij", "abcde\n", "ab cde", "abcde.1fghi",
             "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl"}
BadAddresses == {"", "http://example.org", "-bad.org", "256.1.1.1", "exa mple.org", "example.org\n", "localhost", "1.2.3", "2001:db8:::1"}
Six == <<"aaaaa", "bbbbb", "ccccc", "ddddd", "eeeee", "fffff">>
Eleven == [i \in 1..11 |-> "10.0.0." \o ToString(i)]
BadBot(k) ==
  LET b == [bad |-> "limits"] id == R(1..Len(bots) + 1) IN
  CASE k = "botnew" -> b @@ (CASE Chance(35) -> [names |-> R({<<>>, <<"valid">>}) \o <<R(BadNames)>>] [] Chance(20) -> [names |-> Six]
                              [] Chance(25) -> [names |-> <<"valid">>, addresses |-> Eleven] [] Chance(40) -> [addresses |-> <<R(BadAddresses)>>]
                              [] Chance(60) -> [months |-> R({0, 25, 0 - 1}), names |-> <<"valid">>] [] OTHER -> <<>>)
    [] k = "botupd" -> [id |-> id] @@ b @@ (CASE Chance(30) -> (R({"names_to_add", "names_to_remove"}) :> <<R(BadNames)>>) [] Chance(25) -> (R({"names_to_add", "names_to_remove"}) :> Six)
                              [] Chance(30) -> (R({"addresses_to_add", "addresses_to_remove"}) :> Eleven) [] Chance(40) -> (R({"addresses_to_add", "addresses_to_remove"}) :> <<R(BadAddresses)>>)
                              [] Chance(60) -> [months |-> R({25, 0 - 1}), names_to_add |-> <<"valid">>] [] OTHER -> <<>>)
    [] OTHER -> [from |-> id, to |-> id + 1] @@ b @@ [names |-> CASE Chance(50) -> <<R(BadNames)>> [] Chance(50) -> Six [] OTHER -> <<>>]
Addresses == {"example.org", "127.0.0.1", "node.threefold.io", "2001:db8::1", "10.0.0.2", "a.example.com"}
SubOf(S, max) == LET q == SetToSeq(R({T \in SUBSET S : Cardinality(T) <= max})) IN q

(* details *)
Data(n) == IF Chance(25) THEN R({1, 5, 32, 82, 83}) ELSE 0
Details(step) ==
  CASE step.a = "give" -> [j |-> IF Chance(40) THEN R({2, 1000, 99999999}) ELSE 0, kind |-> IF step.conf /\ Chance(15) THEN R({"mint", "erc20"}) ELSE "genesis"] @@ step
    [] step.a = "give_swap" -> [near |-> Chance(12)] @@ step
    [] step.a = "botnew" -> [fresh |-> Chance(35)] @@ step            \* by default the wallet takes a new key
    [] step.a = "send" -> [data |-> Data(0), builder |-> Chance(40)] @@ step
    [] step.a \in {"swap", "redeem", "refund", "drain", "mintdef", "mintcoins"} -> [data |-> Data(0)] @@ step
    [] step.a = "ercreg" -> (IF "plain" \notin DOMAIN step /\ step.of[2] = step.w /\ Chance(50) THEN [of |-> step.of[3]] ELSE <<>>) @@ step
    [] step.a = "mine" -> (IF "edge" \notin DOMAIN step /\ Chance(40) THEN [edge |-> R({0 - 1, 0 - 1, 0, 1}), k |-> R({0, 0, 0, 1, 2, 5})] ELSE <<>>) @@ step
    [] OTHER -> step

--------------------------------------------------------------------------------
Gen0 == Init0 /\ minters = <<"k", 1, 0>>
Query(w) == {[a |-> "balance", w |-> w], [a |-> "txs", w |-> w]}
Ref(k) == IF k <= 50 THEN R(KeyRefs) ELSE IF k <= 80 THEN R(Multis) ELSE IF k <= 90 THEN <<"x", 1>> ELSE <<"x", 7>>
Asked(k) ==
  CASE k = "gettx" -> [a |-> "gettx", i |-> R(0..11), none |-> Chance(10)]
    [] k = "getout" -> [a |-> "getout", i |-> R(0..23), none |-> Chance(10)]
    [] k = "getblock" -> [a |-> "getblock", i |-> R(0..7), height |-> Chance(40)]
    [] k = "getaddr" -> [a |-> "getaddr", r |-> Ref(R(1..100))]
    [] k = "getmint" -> IF Chance(40) THEN [a |-> "getmint"] ELSE [a |-> "getmint", h |-> R({0, 1, 2, 5, 99})]
    [] k = "info" -> [a |-> "info"]
Made == {n \in DOMAIN txs : txs[n].w # 0}
Open == {n \in Made : ~txs[n].sub}
(* who can still add a signature to what *)
NextSigns == {x \in W \X Open : CanSign(x[1], txs[x[2]]) \ txs[x[2]].sig # {}}
BadKinds(k) == CASE k = "send" -> {"data", "amount", "recipient", "lock", "source", "refund"}
                 [] k = "botnew" -> {"names", "months", "addresses", "many"}
VerifyStep(w) ==
  [a |-> "verify", w |-> w, c |-> R(0..3), none |-> Chance(4), plain |-> Chance(4), pre |-> Chance(15)]
  @@ (IF Chance(40) THEN [amount |-> R({0, 0, 1, 0 - 1})] ELSE <<>>)
  @@ (IF Chance(40) THEN [hash |-> Chance(70)] ELSE <<>>)
  @@ (IF Chance(50) THEN [time |-> R({"z", "p0", "p1", "p1000", "r0", "r1", "r-1", "r1000", "r-1000", "d0", "d1", "d-1"})] ELSE <<>>)
  @@ (IF Chance(30) THEN [sender |-> TRUE] ELSE <<>>) @@ (IF Chance(30) THEN [receiver |-> TRUE] ELSE <<>>)
Months == {1, 2, 11, 12, 13, 23, 24}

BotKeys == {b.key : b \in ToSet(bots)}           \* keys and names belong to one bot
BotNames == UNION {b.names : b \in ToSet(bots)}
(* the addresses of pending outputs that are spent again *)
Chains == {outs[o].to : o \in {o \in DOMAIN outs : outs[o].sp # 0 /\ ~txs[outs[o].tx].cf /\ outs[o].to[1] \in {"k", "m"}}}
Craftable == {o \in DOMAIN outs : outs[o].to[1] \in {"k", "m"}}
Sends == SelectSeq(hist, LAMBDA h : h.a = "send" /\ "bad" \notin DOMAIN h /\ "top" \notin DOMAIN h)
Do0 == Mine(Pending, "short")
Able(m) ==
  CASE m = "craft" -> Craftable # {}
    [] m = "resend" -> Sends # <<>>
    [] m \in {"sign"} -> Made # {}
    [] m \in {"signopen"} -> Open # {}
    [] m \in {"claim", "near"} -> Swaps # {}
    [] m \in {"botupd", "botxfer"} -> bots # <<>>
    [] OTHER -> TRUE
Do(m) ==
  CASE m = "give" ->
         \E n \in {R({1, 1, 1, 2, 3})}, c \in {Chance(75)} : \E q \in {[i \in 1..n |-> [to |-> GiveTo(R(1..100)), v |-> R(Vs), l |-> Lk(35, LockNames)]]} : Give(q, c)
    [] m = "giveall" ->        \* something for everyone
         \E q \in {[i \in 1..3 |-> [to |-> <<"k", i, 0>>, v |-> 50 * Max(Vs), l |-> "none"]]} : Give(q, TRUE)
    [] m = "givem" ->
         \E to \in {R(Multis)}, n \in {R({1, 2, 3})}, c \in {Chance(80)} : \E q \in {[i \in 1..n |-> [to |-> to, v |-> 3 * R(Vs), l |-> Lk(15, LockNames)]]} : Give(q, c)
    [] m = "mine" -> \E S \in {IF Chance(70) THEN Pending ELSE R(SUBSET Pending)}, dt \in {IF Chance(75) THEN "short" ELSE "long"} : Mine(S, dt)
    [] m = "bulk" ->           \* around the limit of inputs
         \E n \in {R({1, 49, 97, 98, 99, 100, 130})}, k \in {R({0, 0, 1, 2, 3})}, c \in {Chance(60)}, to \in {IF Chance(75) THEN <<"k", 1, R({0, 1})>> ELSE <<"m", <<<<2, 0>>, <<1, 0>>>>, 1>>} :
            Give([i \in 1..n |-> [to |-> to, v |-> k, l |-> "none"]], c)
    [] m = "send" ->
         \E w \in {R(W)}, n \in {R({1, 1, 1, 2, 3})} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))},
            q \in {[i \in 1..n |-> [to |-> AnyTo(0), v |-> R(Wants), l |-> Lk(30, ReqLocks)]]} : Send(w, src, refund, q)
    [] m = "send1" ->          \* wallet 1 only
         \E src \in {IF Chance(70) THEN <<>> ELSE <<<<"m", <<<<2, 0>>, <<1, 0>>>>, 1>>>>}, v \in {R({1, 20, 98, 99, 100, 120, 150, 197, 250, 297})} :
            Send(1, src, <<>>, <<[to |-> AnyTo(0), v |-> v, l |-> "none"]>>)
    [] m = "top" -> \E w \in {IF Chance(60) THEN 1 ELSE R(W)} : \E src \in {Src(w, R(1..100))}, d \in {R({0, 1, 0 - 1, 0})}, to \in {AnyTo(0)} : SendTop(w, src, to, d)
    [] m = "sendm" ->          \* from a multisig wallet
         \E w \in {R(W)} : \E src \in {IF FundedMs(w) = {} THEN <<R(Multis)>> ELSE <<R(FundedMs(w))>> \o (IF Chance(20) THEN <<R(Keys(w))>> ELSE <<>>)} :
         \E q \in {[i \in 1..R(1..2) |-> [to |-> AnyTo(0), v |-> R(Wants), l |-> Lk(15, ReqLocks)]]}, refund \in {RefundChoice(R(1..100))} : Send(w, src, refund, q)
    [] m = "resend" ->         \* the same payees again, one of them gets another amount: what was not accepted, or completed, leaves its inputs unspent
         \E h \in {LET k == Len(Sends) IN Sends[IF Chance(70) THEN k ELSE R(1..k)]} :
         \E q \in {[n \in 1..Len(h.outs) |-> [to |-> h.outs[n].r, v |-> IF n = 1 THEN R(Wants) ELSE h.outs[n].v, l |-> h.outs[n].l]]} : Send(h.w, h.src, h.refund, q)
    [] m = "badsend" -> \E w \in {R(W)}, b \in {R(BadKinds("send"))} : Refused([a |-> "send", w |-> w, bad |-> b, outs |-> <<[r |-> AnyTo(0), v |-> 1, l |-> "none"]>>, src |-> <<>>, refund |-> <<>>])
    [] m = "zero" -> \E w \in {R(W)} : Refused([a |-> "send", w |-> w, outs |-> <<[r |-> R(KeyRefs), v |-> 0, l |-> "none"]>>, src |-> <<>>, refund |-> <<>>])
    [] m = "reject" -> Ask([a |-> "reject", on |-> TRUE])
    [] m = "accept" -> Ask([a |-> "reject", on |-> FALSE])
    [] m = "sign" -> \E w \in {R(W)}, n \in {R(Made)}, s \in {Chance(80)} : Sign(w, n, s)
    [] m = "signopen" -> \E N \in {IF Chance(50) THEN NextSigns ELSE {}} : \E x \in {IF N = {} THEN <<R(W), R(Open)>> ELSE R(N)}, s \in {Chance(80)} : Sign(x[1], x[2], s)
    [] m = "craft" ->          \* made by somebody else: any outputs, of anyone, also spent or locked ones
         \E n \in {R({1, 1, 2, 3})}, to \in {AnyTo(0)}, C \in {IF Chance(45) THEN {o \in Craftable : Spendable(o)} ELSE IF Chance(50) THEN {o \in Craftable : ~Spendable(o)} ELSE Craftable} :
         \E S \in {IF C = {} THEN {R(Craftable)} ELSE {R(C) : i \in 1..n}} : IF Sum(S) > 1 THEN Craft(S, to, [unknown |-> Chance(8)]) ELSE Do0
    [] m = "drain" -> \E w \in {R(W)} : \E which \in {IF FundedMs(w) = {} \/ Chance(60) THEN <<>> ELSE R(FundedMs(w))}, to \in {AnyTo(0)}, u \in {Chance(50)}, s \in {Chance(70)} : Drain(w, which, to, u, s)
    [] m = "snap" -> \E k \in {R(1..100)}, d \in {IF Chance(6) THEN R({<<1, 0 - 1>>, <<0 - 1, 1>>, <<1, 1>>}) ELSE <<0, 0>>} : Ask(
         IF k <= 35 THEN [a |-> "snap", from |-> "wallet", w |-> R(W), dh |-> d[1], dt |-> d[2]]
         ELSE IF k <= 70 /\ Chains # {} THEN [a |-> "snap", from |-> "addr", r |-> R(Chains), dh |-> d[1], dt |-> d[2]]
         ELSE IF k <= 60 THEN [a |-> "snap", from |-> "addr", r |-> R(KeyRefs), dh |-> d[1], dt |-> d[2]]
         ELSE IF k <= 88 THEN [a |-> "snap", from |-> "addr", r |-> R(Multis), dh |-> d[1], dt |-> d[2]]
         ELSE [a |-> "snap", from |-> "new", k |-> R({"W", "S"})])
    [] m = "merge" -> \E k \in {R(0..7)}, j \in {R(0..7)} : Ask([a |-> "merge", i |-> k, j |-> j])
    [] m = "put" -> Ask([a |-> "put", i |-> R(0..7), j |-> R(0..7), n |-> R(0..9), conf |-> R(BOOLEAN), spent |-> R(BOOLEAN)])
    [] m = "query" -> \E w \in {R(W)} : \E q \in {R(Query(w))} : Ask(q)
    [] m = "ask" -> \E k \in {R({"gettx", "getout", "getblock", "getaddr", "getaddr", "getmint", "info"})} : \E q \in {Asked(k)} : Ask(q)
    [] m = "again" -> \E k \in {IF Chance(50) THEN R(0..2) ELSE R(0..20)} : Ask([a |-> "again", i |-> k])      \* a question asked before
    [] m = "newaddr" -> \E w \in {R(W)} : Ask([a |-> "newaddr", w |-> w])
    [] m = "swap" -> \E w \in {R(W)}, p \in {Chance(50)} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))},
            to \in {IF Chance(80) THEN R(KeyRefs) ELSE R(Foreign)}, v \in {IF Chance(85) THEN R(Wants \ {1}) ELSE R({0, 1})}, k \in {R({"p", "e", "n", "f", "d"})}, s \in {Chance(80)}, sec \in {R(0..3)} :
            Swap(w, src, refund, to, v, k, p, sec, s)
    [] m = "giveswap" -> \E from \in {R(KeyRefs)}, to \in {R(KeyRefs)}, v \in {R({2, 3, 9})}, k \in {R({"p", "e", "n", "f"})}, sec \in {R(0..3)} : GiveSwap(from, to, v, k, sec)
    [] m = "claim" -> \E o \in {R(Swaps)} : \E w \in {IF Chance(60) THEN LET k == outs[o].to[R({2, 3})] IN IF k[1] = "k" /\ k[2] \in W THEN k[2] ELSE R(W) ELSE R(W)}, r \in {Chance(80)}, t \in {Chance(50)} :
            IF t THEN TakeBack(w, o) ELSE Redeem(w, o, r)
    [] m = "near" -> \E o \in {R(Swaps)}, S \in {IF Chance(60) THEN Pending ELSE {}} : MineNear(S, o, R({0 - 1, 0, 1}))
    [] m = "claimnear" ->      \* the contract whose refund time is near
         \E o \in {CHOOSE o \in Swaps : SwapNumber(o) = Last(hist).c} : \E w \in {IF Chance(85) /\ outs[o].to[2][1] = "k" /\ outs[o].to[2][2] \in W THEN outs[o].to[2][2] ELSE R(W)} :
            IF Chance(80) THEN TakeBack(w, o) ELSE Redeem(w, o, Chance(80))
    [] m = "noswap" -> \E w \in {R(W)}, k \in {R({"redeem", "refund"})}, p \in {Chance(50)} : Ask([a |-> k, w |-> w, none |-> ~p, plain |-> p])
    [] m = "verify" -> \E w \in {R(W)} : \E q \in {VerifyStep(w)} : Ask(q)
    [] m = "badswap" -> \E w \in {R(W)}, b \in {R({"amount", "secret", "data"})} : Refused([a |-> "swap", w |-> w, to |-> R(KeyRefs), v |-> 3, part |-> b = "secret", bad |-> b, src |-> <<>>, refund |-> <<>>])
    [] m = "mintdef" -> \E w \in {R(W)}, to \in {IF Chance(70) THEN R(Multis) ELSE R(KeyRefs)} : MintDef(w, to)
    [] m = "mintcoins" -> \E w \in {R(W)}, to \in {AnyTo(0)}, v \in {R(Wants)}, l \in {Lk(30, ReqLocks)} : MintCoins(w, to, v, l)
    [] m = "badmint" -> \E w \in {R(W)} : \E q \in {IF Chance(30) THEN [a |-> "mintdef", w |-> w, r |-> R(KeyRefs), bad |-> "data"]
                                                   ELSE IF Chance(30) THEN [a |-> "mintcoins", w |-> w, r |-> R(KeyRefs), v |-> 1, l |-> "none", bad |-> "data"]
                                                   ELSE IF Chance(50) THEN [a |-> "mintdef", w |-> w, r |-> <<"nil">>, bad |-> R({"", "recipient"})]
                                                   ELSE [a |-> "mintcoins", w |-> w, r |-> R(KeyRefs), v |-> R({0, 1}), l |-> "none", bad |-> "amount"]} : Refused(q)
    [] m = "mintcond" -> \E to \in {IF Chance(40) /\ Councils # {} THEN R(Councils) ELSE IF Chance(50) THEN R(Multis) ELSE R(KeyRefs)} :
            /\ minters' = to /\ Log([a |-> "mintcond", r |-> to]) /\ UNCHANGED <<clock, outs, txs, bots, erc, burned, born>>
    [] m = "setbot" -> \E k \in {IF Chance(90) /\ KeyRefs \ BotKeys # {} THEN R(KeyRefs \ BotKeys) ELSE <<"x", 5 + Len(bots)>>}, ns \in {SubOf(Names \ BotNames, 2)}, as \in {SubOf(Addresses, 2)}, e \in {R({"past", "soon", "far", "far"})} : SetBot(k, ns, as, e)
    [] m = "botnew" -> \E w \in {R(W)} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))}, n \in {R({0, 1})}, mo \in {R(Months)}, ns \in {SubOf(Names, 5)}, as \in {SubOf(Addresses, 3)} :
            BotNew(w, src, refund, <<"k", w, n>>, mo, ns \o (IF ns \o as = <<>> THEN <<"needs">> ELSE <<>>), as)
    [] m = "botupd" -> \E w \in {R(W)}, b \in {R(1..(Len(bots) + 1))} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))}, mo \in {R({0, 0} \cup Months)}, nadd \in {SubOf(Names, 3)}, aadd \in {SubOf(Addresses, 2)} :
         \E ndel \in {SubOf(Names \ ToSet(nadd), 2)}, adel \in {SubOf(Addresses \ ToSet(aadd), 2)} :
            BotUpd(w, src, refund, b, mo, nadd \o (IF mo = 0 /\ nadd \o ndel \o aadd \o adel = <<>> THEN <<"onemore">> ELSE <<>>), ndel, aadd, adel)
    [] m = "botxfer" -> \E w \in {R(W)}, f \in {R(1..(Len(bots) + 1))}, t \in {R(1..(Len(bots) + 1))} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))}, ns \in {SubOf(Names, 4)} :
            IF f = t THEN Ask([a |-> "botget", id |-> f, by |-> R({"id", "key", "name"})])
            ELSE BotXfer(w, src, refund, f, t, ns \o (IF ns = <<>> THEN <<"onemore">> ELSE <<>>))
    [] m = "badbot" -> \E w \in {R(W)}, k \in {R({"botnew", "botupd", "botxfer"})} : \E d \in {BadBot(k)} :
            Refused([a |-> k, w |-> w, src |-> <<>>, refund |-> <<>>] @@ d)
    [] m = "botget" -> \E b \in {R(1..(Len(bots) + 1))}, by \in {R({"id", "key", "name"})} : Ask([a |-> "botget", id |-> b, by |-> by])
    [] m = "botall" -> Ask([a |-> "botall"])
    [] m = "ercsend" -> \E w \in {R(W)} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))}, v \in {IF Chance(90) THEN R(Wants) ELSE 0} : ErcSend(w, src, refund, <<"e", R(1..3)>>, v)
    [] m = "badercsend" -> \E w \in {R(W)}, b \in {R({"lock", "data", "amount"})} : Refused([a |-> "ercsend", w |-> w, to |-> <<"e", 1>>, v |-> 1, bad |-> b, src |-> <<>>, refund |-> <<>>])
    [] m = "ercreg" -> \E w \in {R(W)} : \E src \in {Src(w, R(1..100))}, refund \in {RefundChoice(R(1..100))}, of \in {IF Chance(85) THEN R(Keys(w)) ELSE R(KeyRefs)} : ErcReg(w, src, refund, of)
    [] m = "ercregnew" -> \E w \in {R(W)} : Ask([a |-> "ercreg", plain |-> TRUE, w |-> w, src |-> <<>>, refund |-> <<>>, of |-> IF Chance(50) THEN <<>> ELSE R({0 - 1, 9})])
    [] m = "seterc" -> \E r \in {R(KeyRefs \cup {<<"k", w, 2>> : w \in W})} : SetErc(r)
    [] m = "ercall" -> \E w \in {R(W)} : Ask([a |-> "ercall", w |-> w])
    [] m = "ercget" -> \E w \in {R(W)} : \E q \in {CASE Chance(30) -> [a |-> "ercall", w |-> w] [] Chance(30) -> [a |-> "ercget", w |-> w] [] Chance(50) -> [a |-> "ercget", w |-> w, of |-> R(0..2)]
                                                     [] OTHER -> [a |-> "ercget", w |-> w, of |-> R(KeyRefs)]} : Ask(q)

--------------------------------------------------------------------------------
(* Menus *)
MenuPay == <<"giveall", "give", "give", "mine", "mine", "craft", "signopen", "send", "send", "send", "send", "top", "top", "query", "zero", "badsend", "drain", "newaddr", "resend", "reject", "accept", "accept">>
MenuMulti == <<"giveall", "givem", "givem", "mine", "send", "sendm", "sendm", "sendm", "resend", "resend", "craft", "craft", "signopen", "signopen", "signopen", "signopen", "sign", "query", "top">>
MenuBalance == <<"giveall", "givem", "give", "give", "mine", "mine", "send", "sendm", "query", "query", "query", "drain", "top", "snap", "snap", "snap">>
MenuMerge == <<"giveall", "give", "give", "givem", "mine", "mine", "send", "send", "snap", "snap", "snap", "merge", "merge", "merge", "merge", "put">>
MenuBulk == <<"bulk", "bulk", "send1", "send1", "top", "mine", "drain">>
MenuDrain == <<"give", "givem", "mine", "drain", "drain", "bulk", "query", "sendm">>
MenuSwap == <<"giveall", "giveswap", "swap", "swap", "swap", "claim", "claim", "near", "near", "noswap", "verify", "mine", "mine", "badswap", "signopen">>
MenuVerify == <<"giveall", "giveswap", "swap", "verify", "verify", "verify", "verify", "verify", "again", "mine", "claim">>
MenuMint == <<"mintdef", "mintdef", "mintcoins", "mintcoins", "mintcoins", "signopen", "signopen", "signopen", "signopen", "mine", "mine", "badmint", "mintcond", "ask", "query">>
MenuBot == <<"giveall", "setbot", "setbot", "botnew", "botnew", "botupd", "botupd", "botupd", "botxfer", "botxfer", "badbot", "botget", "botget", "botall", "mine", "mine", "signopen", "signopen", "give">>
MenuErc == <<"giveall", "ercsend", "ercsend", "ercreg", "ercreg", "ercregnew", "seterc", "seterc", "ercall", "ercget", "ercget", "again", "badercsend", "mine", "give", "signopen">>
MenuAsk == <<"giveall", "give", "give", "giveswap", "send", "sendm", "swap", "claim", "mintdef", "mintcoins", "mintcond", "ercsend", "mine", "mine", "ask", "ask", "ask", "ask", "ask", "again", "again", "query", "query">>
MenuAll == MenuPay \o MenuMulti \o MenuSwap \o MenuMint \o MenuErc \o MenuAsk

GenNext ==
  \/ /\ Len(hist) < Depth
     /\ IF hist = <<>> /\ "giveall" \in ToSet(Menu) THEN Do("giveall")
        ELSE IF Len(hist) <= 1 /\ "mintcond" \in ToSet(Menu) THEN Do("mintcond")
        ELSE IF hist # <<>> /\ Last(hist).a = "mine" /\ "c" \in DOMAIN Last(hist) /\ Chance(90) THEN Do("claimnear")
        ELSE \E m \in {Menu[R(DOMAIN Menu)]} : IF Able(m) THEN Do(m) ELSE Do("give")
  \/ /\ Len(hist) = Depth
     /\ PrintT("PROGRAM " \o ToJson([steps |-> hist,
                wallets |-> [w \in W |-> [keys |-> R({1, 2, 2, 3}), gap |-> IF Chance(8) THEN R({14, 31, 62}) ELSE IF Chance(1) THEN 255 ELSE 0, short |-> Chance(15)]]]))
     /\ hist' = Append(hist, [a |-> "end"]) /\ UNCHANGED <<clock, outs, txs, minters, bots, erc, burned, born>>
GenSpec == Gen0 /\ [][GenNext]_vars
=============================================================================
