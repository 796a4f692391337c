------------------------------- MODULE SystemMC -------------------------------
(* System, exhaustively, for a menu of actions and small constants *)
EXTENDS System
CONSTANTS Menu, MaxSteps, MaxTxs, MaxOuts, Vals, Minters0

Id(step) == step
AllPicks(E, need) == {S \in SUBSET E : S # {} /\ Cardinality(S) <= MaxIn /\ Sum(S) >= need}
M22 == <<"m", <<<<1, 0>>, <<2, 0>>>>, 2>>
M12 == <<"m", <<<<1, 0>>, <<2, 0>>>>, 1>>
M23 == <<"m", <<<<1, 0>>, <<2, 0>>, <<3, 0>>>>, 2>>
Msigs == IF NW >= 3 THEN {M23} ELSE {M22, M12}
K(w) == <<"k", w, 0>>
W == 1..NW
Addrs == {K(w) : w \in W} \cup Msigs
Srcs == {<<>>} \cup {<<m>> : m \in Msigs} \cup {<<K(1), m>> : m \in Msigs}
DrainOf == {<<>>, M22}
On(x) == x \in Menu
Room == Len(txs) < MaxTxs /\ Len(outs) < MaxOuts

MCInit == Init0 /\ minters = Minters0
Acts ==
  \/ On("give") /\ Room /\ \E to \in Addrs, v \in Vals, l \in {"none", "hn"}, c \in BOOLEAN : Give(<<[to |-> to, v |-> v, l |-> l]>>, c)
  \/ On("mine") /\ \E S \in {{}, Pending}, dt \in {"short", "long"} : Mine(S, dt)
  \/ On("send") /\ Room /\ \E w \in W, src \in Srcs, to \in Addrs \cup {<<"x", 1>>}, v \in Vals, l \in {"none", "hn"} : Send(w, src, <<>>, <<[to |-> to, v |-> v, l |-> l]>>)
  \/ On("top") /\ Room /\ \E w \in W, src \in Srcs, d \in {0, 1} : SendTop(w, src, <<"x", 1>>, d)
  \/ On("sign") /\ \E w \in W, n \in DOMAIN txs, s \in BOOLEAN : Sign(w, n, s)
  \/ On("drain") /\ Room /\ \E w \in W, m \in DrainOf, u, s \in BOOLEAN : Drain(w, m, K(1), u, s)
  \/ On("swap") /\ Room /\ \E w \in W, k \in {"p", "n"}, p \in BOOLEAN, v \in Vals : Swap(w, <<>>, <<>>, K(2), v, k, p, 1, TRUE)
  \/ On("claim") /\ Len(txs) < MaxTxs /\ \E w \in W, o \in Swaps : TakeBack(w, o) \/ \E r \in BOOLEAN : Redeem(w, o, r)
  \/ On("mint") /\ Room /\ \E w \in W : (\E to \in Addrs : MintDef(w, to)) \/ \E v \in Vals : MintCoins(w, K(1), v, "none")
  \/ On("bot") /\ Room /\ \E w \in W :
       \/ BotNew(w, <<>>, <<>>, K(w), 1, <<"a">>, <<>>)
       \/ \E b \in 1..2 : BotUpd(w, <<>>, <<>>, b, 1, <<"b">>, <<"a">>, <<>>, <<>>)
       \/ BotXfer(w, <<>>, <<>>, 1, 2, <<"a">>)
  \/ On("erc") /\ Room /\ \E w \in W : ErcSend(w, <<>>, <<>>, <<"e", 1>>, 2) \/ ErcReg(w, <<>>, <<>>, K(w))
MCNext == Len(hist) < MaxSteps /\ Acts
MCSpec == MCInit /\ [][MCNext]_vars
View == <<clock, outs, txs, minters, bots, erc, burned, born, Len(hist)>>
=============================================================================
