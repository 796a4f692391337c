--------------------------------- MODULE System ---------------------------------
(* The abstract system: a chain, the wallets that live on it, and what may *)
(* be asked of them. Amounts are multiples of the minimum fee, signatures  *)
(* are pairs of an input and the key that signed it. The module is checked *)
(* exhaustively for small constants (SystemMC), and its behaviours are the *)
(* programs which are run against the real code (SystemGen); what the real *)
(* code makes of them is judged by Session, in real amounts and bytes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
CONSTANTS NW,                 \* number of wallets
          NK,                 \* number of keys of each
          MaxIn,              \* most inputs in a transaction
          Unit,               \* one TFT, in minimum fees
          Pick(_, _),         \* the selections of inputs that are considered
          Deco(_)             \* decoration of the steps in a history

VARIABLES
  clock,                      \* [h, t] height and time of the chain
  outs,                       \* outputs on the chain: [to, v, lk, tx, sp]
  txs,                        \* transactions: [k, w, ins, new, fee, sig, sub, cf, x]
  minters,                    \* who may mint
  bots,                       \* 3Bots: [key, names, exp]
  erc,                        \* addresses registered for ERC20
  burned,                     \* coins that left the chain or were paid as extra fees
  born,                       \* coins given or minted
  hist                        \* what was asked, in order
vars == <<clock, outs, txs, minters, bots, erc, burned, born, hist>>

--------------------------------------------------------------------------------
(* Addresses: <<"k", wallet, index>>, <<"m", <<<<wallet, index>>, ...>>, count>>, <<"x", n>> (a stranger), <<"nil">>, *)
(* <<"swap", from, to, secret, time>>                                                                               *)
Keys(w) == {<<"k", w, n>> : n \in 0..(NK - 1)}
Owners(to) == IF to[1] = "m" THEN {<<"k", p[1], p[2]>> : p \in ToSet(to[2])} ELSE {to}
Need(to) == IF to[1] = "m" THEN to[3] ELSE 1
(* Locks: <<"none">>, <<"h", height>>, <<"t", time>> *)
LockedNow(l) == (l[1] = "h" /\ clock.h < l[2]) \/ (l[1] = "t" /\ clock.t < l[2])
(* the locks that can be asked for, as the programs name them *)
LockOf(k) == CASE k = "none" -> <<"none">>
               [] k = "hp" -> <<"h", clock.h - 1>> [] k = "he" -> <<"h", clock.h>> [] k = "hn" -> <<"h", clock.h + 1>> [] k = "hf" -> <<"h", clock.h + 99>>
               [] k = "tp" -> <<"t", clock.t - 1>> [] k = "te" -> <<"t", clock.t>> [] k = "t1" -> <<"t", clock.t + 1>>
               [] k = "tn" -> <<"t", clock.t + 2>> [] k = "tf" -> <<"t", clock.t + 99>>
               [] OTHER -> <<"t", clock.t + 99>>       \* durations count from today, far behind the chain of the programs

Unspent(o) == outs[o].sp = 0
Spendable(o) == Unspent(o) /\ ~LockedNow(outs[o].lk)
Permitted(o, w, src) ==
  LET to == outs[o].to IN
  \/ to[1] = "k" /\ to \in Keys(w) /\ (src = <<>> \/ to \in ToSet(src))
  \/ to[1] = "m" /\ to \in ToSet(src) /\ Owners(to) \cap Keys(w) # {}
Eligible(w, src) == {o \in DOMAIN outs : Spendable(o) /\ Permitted(o, w, src)}
Sum(S) == FoldSet(LAMBDA o, a : a + outs[o].v, 0, S)
SumSeq(q) == FoldSeq(LAMBDA o, a : a + o.v, 0, q)
Value(n) == outs[n].v
Best(S) == SortSeq(SetToSeq(S), LAMBDA a, b : Value(a) > Value(b))
TopSet(S) == LET q == TLCEval(Best(S)) IN {q[n] : n \in 1..(IF Len(q) < MaxIn THEN Len(q) ELSE MaxIn)}
Top(S) == Sum(TopSet(S))

--------------------------------------------------------------------------------
(* Signing and submitting *)
Complete(tx) == /\ \A o \in tx.ins : Cardinality({g \in tx.sig : g[1] = o}) >= Need(outs[o].to)
                /\ (tx.k \in {"mintdef", "mintcoins"} => Cardinality({g \in tx.sig : g[1] = 0 /\ g[2] \in Owners(minters)}) >= Need(minters))
                /\ tx.k = "botupd" => <<0, bots[tx.x.bot].key>> \in tx.sig
                /\ tx.k = "botxfer" => {<<0, bots[tx.x.from].key>>, <<0, bots[tx.x.to].key>>} \subseteq tx.sig
(* what wallet w can sign in tx *)
CanSign(w, tx) ==
  UNION {{<<o, k>> : k \in Owners(outs[o].to) \cap Keys(w)} : o \in {o \in tx.ins : Spendable(o)}}
  \cup (IF tx.k \in {"mintdef", "mintcoins"} THEN {<<0, k>> : k \in Owners(minters) \cap Keys(w)} ELSE {})
  \cup (IF tx.k = "botupd" THEN {<<0, k>> : k \in {bots[tx.x.bot].key} \cap Keys(w)} ELSE {})
  \cup (IF tx.k = "botxfer" THEN {<<0, k>> : k \in {bots[tx.x.from].key, bots[tx.x.to].key} \cap Keys(w)} ELSE {})
Free(tx) == \A o \in tx.ins : Spendable(o)
(* tx becomes transaction number n; if sub it enters the pool and its outputs come into existence *)
Put(n, tx) ==
  /\ txs' = IF n > Len(txs) THEN Append(txs, tx) ELSE [txs EXCEPT ![n] = tx]
  /\ IF tx.sub
     THEN /\ outs' = [o \in DOMAIN outs |-> IF o \in tx.ins THEN [outs[o] EXCEPT !.sp = n] ELSE outs[o]]
                     \o [i \in 1..Len(tx.new) |-> [to |-> tx.new[i].to, v |-> tx.new[i].v, lk |-> tx.new[i].lk, tx |-> n, sp |-> 0]]
          /\ burned' = burned + tx.fee
     ELSE UNCHANGED <<outs, burned>>
Log(step) == hist' = Append(hist, Deco(step))

--------------------------------------------------------------------------------
(* The outside world *)
Give(given, conf) ==                          \* given: a sequence of [to, v, l]
  /\ txs' = Append(txs, [k |-> "give", w |-> 0, ins |-> {}, new |-> <<>>, fee |-> 0, sig |-> {}, sub |-> TRUE, cf |-> conf, x |-> <<>>])
  /\ outs' = outs \o [i \in 1..Len(given) |-> [to |-> given[i].to, v |-> given[i].v, lk |-> LockOf(given[i].l), tx |-> Len(txs) + 1, sp |-> 0]]
  /\ born' = born + SumSeq(given)
  /\ Log([a |-> "give", outs |-> [i \in 1..Len(given) |-> [r |-> given[i].to, v |-> given[i].v, l |-> given[i].l]], conf |-> conf])
  /\ UNCHANGED <<clock, minters, bots, erc, burned>>

Pending == {n \in DOMAIN txs : txs[n].sub /\ ~txs[n].cf}
RECURSIVE WithParents(_)
WithParents(S) == LET P == S \cup {n \in Pending : \E m \in S : \E o \in txs[m].ins : outs[o].tx = n} IN IF P = S THEN S ELSE WithParents(P)
LastOf(S, k) == {n \in S : txs[n].k = k}
NewBot(n) == [key |-> txs[n].x.key, names |-> txs[n].x.names, exp |-> clock.t + txs[n].x.months]
ApplyBot(bs, n) ==
  LET x == txs[n].x IN
  CASE txs[n].k = "botnew" -> Append(bs, NewBot(n))
    [] txs[n].k = "botupd" -> [bs EXCEPT ![x.bot] = [key |-> @.key, names |-> (@.names \ x.del) \cup x.add, exp |-> (IF @.exp > clock.t THEN @.exp ELSE clock.t) + x.months]]
    [] txs[n].k = "botxfer" -> [bs EXCEPT ![x.from] = [@ EXCEPT !.names = @ \ x.names], ![x.to] = [@ EXCEPT !.names = @ \cup x.names]]
    [] OTHER -> bs
MineAt(S, t, step) ==                         \* a block at time t
  LET C == WithParents(S) IN
  /\ clock' = [h |-> clock.h + 1, t |-> t]
  /\ txs' = [n \in DOMAIN txs |-> IF n \in C THEN [txs[n] EXCEPT !.cf = TRUE] ELSE txs[n]]
  /\ minters' = IF LastOf(C, "mintdef") = {} THEN minters ELSE txs[Max(LastOf(C, "mintdef"))].x.to
  /\ bots' = FoldSeq(LAMBDA n, bs : ApplyBot(bs, n), bots, SortSeq(SetToSeq(C), LAMBDA a, b : a > b))
  /\ erc' = erc \cup {txs[n].x.key : n \in LastOf(C, "ercreg")}
  /\ Log([a |-> "mine", only |-> IF C = {} /\ Pending # {} THEN "none" ELSE IF C = Pending THEN "all" ELSE "some"] @@ step)
  /\ UNCHANGED <<outs, burned, born>>
Mine(S, dt) == MineAt(S, clock.t + (IF dt = "long" THEN 3 ELSE 1), [dt |-> IF dt = "long" THEN 1000 ELSE 60])   \* dt: short or long

(* A query changes nothing *)
Ask(step) == Log(step) /\ UNCHANGED <<clock, outs, txs, minters, bots, erc, burned, born>>

--------------------------------------------------------------------------------
(* Requests that are paid for: cost is what is paid besides the outputs wanted and the fee *)
RefundTo(w, src, refund) == IF refund # <<>> THEN refund ELSE IF Len(src) = 1 THEN src[1] ELSE <<"k", w, 0>>
Feasible(w, src, need) == need <= Top(Eligible(w, src))
NewTx(k, w, S, new, fee, x) == [k |-> k, w |-> w, ins |-> S, new |-> new, fee |-> fee, sig |-> {}, sub |-> FALSE, cf |-> FALSE, x |-> x]
Request(k, w, src, refund, want, cost, x, submit) ==
  LET need == SumSeq(want) + cost + 1 E == TLCEval(Eligible(w, src)) IN
  IF need > Top(E) THEN UNCHANGED <<outs, txs, burned>>
  ELSE \E S \in Pick(E, need) :
         LET left == Sum(S) - need
             new == want \o (IF left = 0 THEN <<>> ELSE <<[to |-> RefundTo(w, src, refund), v |-> left, lk |-> <<"none">>]>>)
             tx0 == NewTx(k, w, S, new, cost + 1, x)
             tx1 == TLCEval([tx0 EXCEPT !.sig = CanSign(w, tx0)])
         IN Put(Len(txs) + 1, [tx1 EXCEPT !.sub = submit /\ Complete(tx1)])
Base(w, src, refund) == [w |-> w, src |-> src, refund |-> refund]
Still == UNCHANGED <<clock, minters, bots, erc, born>>

Send(w, src, refund, q) ==                    \* q: a sequence of [to, v, l]
  /\ Request("send", w, src, refund, [i \in 1..Len(q) |-> [to |-> q[i].to, v |-> q[i].v, lk |-> LockOf(q[i].l)]], 0, <<>>, TRUE)
  /\ Log([a |-> "send", outs |-> [i \in 1..Len(q) |-> [r |-> q[i].to, v |-> q[i].v, l |-> q[i].l]]] @@ Base(w, src, refund))
  /\ Still
(* everything that can be spent, or the least bit more (d = 1) or less (d = -1) *)
SendTop(w, src, to, d) ==
  LET top == Top(Eligible(w, src)) IN
  /\ IF top < 2 \/ d > 0 THEN UNCHANGED <<outs, txs, burned>>
     ELSE Request("send", w, src, <<>>, <<[to |-> to, v |-> top - 1, lk |-> <<"none">>]>>, 0, <<>>, TRUE)
  /\ Log([a |-> "send", top |-> TRUE, outs |-> <<[r |-> to, v |-> <<"top", d>>, l |-> "none"]>>] @@ Base(w, src, <<>>))
  /\ Still
Refused(step) == Ask(step)                    \* a request that breaks a rule has no effect
Sign(w, n, submit) ==
  /\ n \in DOMAIN txs /\ txs[n].w # 0
  /\ LET tx == TLCEval([txs[n] EXCEPT !.sig = @ \cup CanSign(w, txs[n])]) IN
     IF txs[n].sub THEN UNCHANGED <<outs, txs, burned>>
     ELSE Put(n, [tx EXCEPT !.sub = submit /\ Free(tx) /\ Complete(tx)])
  /\ Log([a |-> "sign", w |-> w, t |-> Cardinality({m \in 1..n : txs[m].w # 0}) - 1, submit |-> submit])
  /\ UNCHANGED <<clock, minters, bots, erc>>
  /\ born' = born + IF txs'[n].sub /\ ~txs[n].sub /\ txs[n].k = "mintcoins" THEN SumSeq(txs[n].new) ELSE 0

(* A transaction that somebody else made, without signatures, for the wallets to sign *)
Craft(S, to, step) ==
  /\ Sum(S) > 1
  /\ txs' = Append(txs, NewTx("craft", 1, S, <<[to |-> to, v |-> Sum(S) - 1, lk |-> <<"none">>]>>, 1, <<>>))
  /\ Log([a |-> "craft", ins |-> [n \in 1..Cardinality(S) |-> LET o == SetToSeq(S)[n] IN
             [r |-> outs[o].to, n |-> Cardinality({p \in DOMAIN outs : p < o /\ outs[p].to = outs[o].to /\ Unspent(p) = Unspent(o)}), spent |-> ~Unspent(o)]], r |-> to] @@ step)
  /\ UNCHANGED <<clock, minters, bots, erc, outs, burned, born>>

(* Draining: batches of at most MaxIn outputs, the most valuable first, as long as a batch exceeds the fee *)
RECURSIVE Batches(_)
Batches(S) == IF S = {} THEN <<>> ELSE LET B == TopSet(S) IN (IF Sum(B) > 1 THEN <<B>> ELSE <<>>) \o Batches(S \ B)
Confirmed(o) == txs[outs[o].tx].cf
DrainSet(w, m, unconf) == {o \in DOMAIN outs : Spendable(o) /\ (unconf \/ Confirmed(o))
                             /\ IF m = <<>> THEN outs[o].to \in Keys(w) ELSE outs[o].to = m}
Only(S) == CHOOSE x \in S : TRUE                 \* (evaluates its element once)
DrainTx(w, to, B, sign) ==
  Only({[tx1 EXCEPT !.sub = sign /\ Complete(tx1)] : tx1 \in {[tx0 EXCEPT !.sig = IF sign THEN CanSign(w, tx0) ELSE {}] :
          tx0 \in {NewTx("drain", w, B, <<[to |-> to, v |-> Sum(B) - 1, lk |-> <<"none">>]>>, 1, <<>>)}}})
Map(F(_), q) == FoldLeft(LAMBDA acc, x : Append(acc, F(x)), <<>>, q)
Drain(w, m, to, unconf, sign) ==
  /\ IF m = <<>> THEN TRUE ELSE Owners(m) \cap Keys(w) # {} /\ \E o \in DOMAIN outs : outs[o].to = m
  /\ \E made \in {Map(LAMBDA B : DrainTx(w, to, B, sign), Batches(DrainSet(w, m, unconf)))} :
     LET n0 == Len(txs)
     IN IF ~sign THEN UNCHANGED <<txs, outs, burned>>
        ELSE /\ txs' = txs \o made
             /\ outs' = [o \in DOMAIN outs |-> LET by == {i \in 1..Len(made) : made[i].sub /\ o \in made[i].ins}
                                               IN IF by = {} THEN outs[o] ELSE [outs[o] EXCEPT !.sp = n0 + Min(by)]]
                        \o FoldLeft(LAMBDA acc, i : IF made[i].sub THEN Append(acc, [to |-> to, v |-> made[i].new[1].v, lk |-> <<"none">>, tx |-> n0 + i, sp |-> 0])
                                                    ELSE acc, <<>>, [i \in 1..Len(made) |-> i])
             /\ burned' = burned + Cardinality({i \in 1..Len(made) : made[i].sub})
  /\ Log([a |-> "drain", w |-> w, m |-> m, r |-> to, unconf |-> unconf, sign |-> sign])
  /\ Still

--------------------------------------------------------------------------------
(* Atomic swaps: the contract is an output to <<"swap", sender, receiver, secret, time>> *)
Swaps == {o \in DOMAIN outs : outs[o].to[1] = "swap"}
SwapSender(w, src, refund) == IF refund # <<>> /\ refund[1] \in {"k", "x"} THEN refund
                              ELSE IF refund = <<>> /\ Len(src) = 1 /\ src[1][1] = "k" THEN src[1] ELSE <<"k", w, 0>>
SwapTime(k) == CASE k = "p" -> clock.t - 1 [] k = "e" -> clock.t [] k = "n" -> clock.t + 2 [] OTHER -> clock.t + 99
SwapArg(k) == CASE k = "p" -> "t-100" [] k = "e" -> "t0" [] k = "n" -> "t300" [] k = "d" -> "d7200" [] OTHER -> "t1000000"
Swap(w, src, refund, to, v, k, part, secret, submit) ==
  /\ LET c == [to |-> <<"swap", SwapSender(w, src, refund), to, IF part THEN secret ELSE 100 + Len(hist), SwapTime(k)>>, v |-> v, lk |-> <<"none">>]
     IN IF v <= 1 THEN UNCHANGED <<outs, txs, burned>>
        ELSE Request("swap", w, src, refund, <<c>>, 0, <<>>, submit)
  /\ Log([a |-> "swap", to |-> to, v |-> v, time |-> SwapArg(k), part |-> part, secret |-> secret, submit |-> submit] @@ Base(w, src, refund))
  /\ Still
GiveSwap(from, to, v, k, secret) ==
  /\ txs' = Append(txs, [k |-> "give", w |-> 0, ins |-> {}, new |-> <<>>, fee |-> 0, sig |-> {}, sub |-> TRUE, cf |-> TRUE, x |-> <<>>])
  /\ outs' = Append(outs, [to |-> <<"swap", from, to, secret, SwapTime(k)>>, v |-> v, lk |-> <<"none">>, tx |-> Len(txs) + 1, sp |-> 0])
  /\ born' = born + v
  /\ Log([a |-> "give_swap", from |-> from, to |-> to, v |-> v, dt |-> CASE k = "p" -> 0 - 100 [] k = "e" -> 0 [] k = "n" -> 300 [] OTHER -> 1000000, secret |-> secret])
  /\ UNCHANGED <<clock, minters, bots, erc, burned>>
Claim(w, o, k, new) == Put(Len(txs) + 1, [NewTx(k, w, {o}, new, 1, <<>>) EXCEPT !.sub = TRUE, !.sig = {<<o, outs[o].to>>}])
MayRedeem(w, o, right) == Unspent(o) /\ right /\ outs[o].to[3] \in Keys(w)
MayRefund(w, o) == Unspent(o) /\ clock.t >= outs[o].to[5] /\ outs[o].to[2] \in Keys(w)
SwapNumber(o) == Cardinality({p \in Swaps : p <= o}) - 1
(* a block just before, at or just after the refund time of a contract *)
MineNear(S, o, d) == MineAt(S, Max({clock.t + 1, outs[o].to[5] + d}), [c |-> SwapNumber(o), edge |-> d])
Redeem(w, o, right) ==
  /\ o \in Swaps /\ outs[o].v > 1
  /\ IF MayRedeem(w, o, right) THEN Claim(w, o, "redeem", <<[to |-> outs[o].to[3], v |-> outs[o].v - 1, lk |-> <<"none">>]>>)
     ELSE UNCHANGED <<outs, txs, burned>>
  /\ Log([a |-> "redeem", w |-> w, c |-> SwapNumber(o), wrong |-> ~right])
  /\ Still
TakeBack(w, o) ==
  /\ o \in Swaps /\ outs[o].v > 1
  /\ IF MayRefund(w, o) THEN Claim(w, o, "refund", <<[to |-> outs[o].to[2], v |-> outs[o].v - 1, lk |-> <<"none">>]>>)
     ELSE UNCHANGED <<outs, txs, burned>>
  /\ Log([a |-> "refund", w |-> w, c |-> SwapNumber(o)])
  /\ Still

--------------------------------------------------------------------------------
(* Minting *)
MintTx(k, w, new, x) == LET tx0 == NewTx(k, w, {}, new, 0, x) IN [tx0 EXCEPT !.sig = CanSign(w, tx0)]
MintDef(w, to) ==
  LET tx == MintTx("mintdef", w, <<>>, [to |-> to]) IN
  /\ Put(Len(txs) + 1, [tx EXCEPT !.sub = Complete(tx)])
  /\ Log([a |-> "mintdef", w |-> w, r |-> to])
  /\ Still
MintCoins(w, to, v, l) ==
  LET tx == MintTx("mintcoins", w, <<[to |-> to, v |-> v, lk |-> LockOf(l)]>>, <<>>) IN
  /\ Put(Len(txs) + 1, [tx EXCEPT !.sub = Complete(tx)])
  /\ born' = born + IF Complete(tx) THEN v ELSE 0
  /\ Log([a |-> "mintcoins", w |-> w, r |-> to, v |-> v, l |-> l])
  /\ UNCHANGED <<clock, minters, bots, erc>>

--------------------------------------------------------------------------------
(* 3Bots. Fees in TFT: registration 90, a month 10 (with discounts), a further name 50, addresses 20, a transferred name 50 *)
MonthFee(m) == IF m < 12 THEN 10 * m ELSE IF m < 24 THEN 7 * m ELSE 5 * m
BotNew(w, src, refund, key, months, names, addrs) ==
  /\ Request("botnew", w, src, refund, <<>>, Unit * (90 + MonthFee(months) + 50 * (IF Len(names) > 1 THEN Len(names) - 1 ELSE 0)),
             [key |-> key, names |-> ToSet(names), months |-> months], TRUE)
  /\ Log([a |-> "botnew", key |-> key[3], months |-> months, names |-> names, addresses |-> addrs] @@ Base(w, src, refund))
  /\ Still
Active(b) == clock.t < bots[b].exp
BotUpd(w, src, refund, b, months, nadd, ndel, aadd, adel) ==
  /\ IF b \notin DOMAIN bots \/ (months = 0 /\ b \in DOMAIN bots /\ ~Active(b)) THEN UNCHANGED <<outs, txs, burned>>
     ELSE Request("botupd", w, src, refund, <<>>, Unit * (MonthFee(months) + 50 * Len(nadd) + (IF aadd \o adel = <<>> THEN 0 ELSE 20)),
                  [bot |-> b, months |-> months, add |-> ToSet(nadd), del |-> ToSet(ndel)], TRUE)
  /\ Log([a |-> "botupd", id |-> b, months |-> months, names_to_add |-> nadd, names_to_remove |-> ndel, addresses_to_add |-> aadd,
          addresses_to_remove |-> adel] @@ Base(w, src, refund))
  /\ Still
BotXfer(w, src, refund, from, to, names) ==
  /\ IF {from, to} \subseteq DOMAIN bots /\ from # to /\ Active(from) /\ Active(to)
     THEN Request("botxfer", w, src, refund, <<>>, Unit * 50 * Len(names), [from |-> from, to |-> to, names |-> ToSet(names)], TRUE)
     ELSE UNCHANGED <<outs, txs, burned>>
  /\ Log([a |-> "botxfer", from |-> from, to |-> to, names |-> names] @@ Base(w, src, refund))
  /\ Still
SetBot(key, names, addrs, exp) ==             \* a 3Bot registered by others; exp: does it expire soon, has it expired?
  /\ bots' = Append(bots, [key |-> key, names |-> ToSet(names), exp |-> CASE exp = "past" -> clock.t [] exp = "soon" -> clock.t + 2 [] OTHER -> clock.t + 99])
  /\ Log([a |-> "bot", id |-> Len(bots) + 1, key |-> key, names |-> names, addresses |-> addrs,
          exp |-> CASE exp = "past" -> 0 [] exp = "soon" -> 300 [] OTHER -> 1000000])
  /\ UNCHANGED <<clock, outs, txs, minters, erc, burned, born>>

--------------------------------------------------------------------------------
(* ERC20 *)
ErcSend(w, src, refund, to, v) ==
  /\ IF v = 0 THEN UNCHANGED <<outs, txs, burned>> ELSE Request("ercsend", w, src, refund, <<>>, v, <<>>, TRUE)
  /\ Log([a |-> "ercsend", to |-> to, v |-> v] @@ Base(w, src, refund))
  /\ Still
ErcReg(w, src, refund, of) ==                 \* of: a key, by index or address
  /\ IF of \in Keys(w) THEN Request("ercreg", w, src, refund, <<>>, Unit * 10, [key |-> of], TRUE) ELSE UNCHANGED <<outs, txs, burned>>
  /\ Log([a |-> "ercreg", of |-> of] @@ Base(w, src, refund))
  /\ Still
SetErc(r) == /\ erc' = erc \cup {r} /\ Log([a |-> "erc20", r |-> r])
             /\ UNCHANGED <<clock, outs, txs, minters, bots, burned, born>>

--------------------------------------------------------------------------------
(* What always holds *)
Init0 == /\ clock = [h |-> 100, t |-> 100] /\ outs = <<>> /\ txs = <<>> /\ bots = <<>> /\ erc = {} /\ burned = 0 /\ born = 0 /\ hist = <<>>

Submitted == {n \in DOMAIN txs : txs[n].sub}
(* coins are neither made nor lost *)
Conservation == Sum({o \in DOMAIN outs : Unspent(o)}) + burned = born
(* an output is spent once *)
SpentOnce == \A n, m \in Submitted : n # m => txs[n].ins \cap txs[m].ins = {}
SpentByRecorded == \A o \in DOMAIN outs : outs[o].sp # 0 => txs[outs[o].sp].sub /\ o \in txs[outs[o].sp].ins
(* what is submitted was signed by enough of those who may *)
Entitled == \A n \in Submitted : \A o \in txs[n].ins :
              IF outs[o].to[1] = "swap" THEN txs[n].k \in {"redeem", "refund"}
              ELSE Cardinality({g \in txs[n].sig : g[1] = o /\ g[2] \in Owners(outs[o].to)}) >= Need(outs[o].to)
OnlyOwners == \A n \in DOMAIN txs : \A g \in txs[n].sig : g[1] # 0 => g[2] \in Owners(outs[g[1]].to)
(* what is complete is submitted at once, unless that was not wanted or it has become impossible *)
PositiveOutputs == \A o \in DOMAIN outs : outs[o].v > 0
InputLimit == \A n \in DOMAIN txs : Cardinality(txs[n].ins) <= MaxIn
ClaimsRight == \A n \in Submitted : \A o \in txs[n].ins :
                 outs[o].to[1] = "swap" => (txs[n].k = "redeem" /\ outs[o].to[3] \in Keys(txs[n].w)) \/ (txs[n].k = "refund" /\ outs[o].to[2] \in Keys(txs[n].w))
(* a name belongs to one 3Bot *)
Pays(n) == LET ins == Sum(txs[n].ins) IN txs[n].ins # {} => ins = SumSeq(txs[n].new) + txs[n].fee
Balanced == \A n \in DOMAIN txs : Pays(n)

(* step properties *)
NoLockedSpent == [][\A o \in DOMAIN outs : outs[o].sp = 0 /\ outs'[o].sp # 0 => ~LockedNow(outs[o].lk)]_vars
RefundsInTime == [][\A o \in DOMAIN outs : outs[o].sp = 0 /\ outs'[o].sp # 0 /\ txs'[outs'[o].sp].k = "refund" => clock.t >= outs[o].to[5]]_vars
OutputsStay == [][\A o \in DOMAIN outs : outs[o].sp # 0 => outs'[o].sp = outs[o].sp]_vars
SignaturesStay == [][\A n \in DOMAIN txs : txs[n].sig \subseteq txs'[n].sig /\ (txs[n].sub => txs'[n].sub)]_vars
MintedRightly == [][\A n \in DOMAIN txs' : txs'[n].k \in {"mintdef", "mintcoins"} /\ txs'[n].sub /\ (n \notin DOMAIN txs \/ ~txs[n].sub)
                      => Cardinality({g \in txs'[n].sig : g[2] \in Owners(minters)}) >= Need(minters)]_vars
=============================================================================
