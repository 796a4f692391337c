-------------------------------- MODULE KeysMC --------------------------------
(* A wallet that is recovered, used and recovered again while its keys are *)
(* paid to: exhaustively for few keys, and at random as programs.          *)
EXTENDS Keys, TLC, Json
CONSTANTS MaxKey, MaxSteps, Counts, Scans, Random
VARIABLES used, w, out, hist              \* used keys; the wallet; the keys it handed out since its recovery
vars == <<used, w, out, hist>>
Log(x) == hist' = Append(hist, x)
R(S) == RandomElement(S)
Some(S) == IF Random THEN {R(S)} ELSE S

Init == used = {} /\ w = Hold(1, 3) /\ out = {0} /\ hist = <<>>
Pay == \E k \in Some(0..MaxKey) : used' = used \cup {k} /\ UNCHANGED <<w, out>> /\ Log([a |-> "use", k |-> k])
Query == w' = ScanKeys(w, used) /\ UNCHANGED <<used, out>> /\ Log([a |-> "query"])
New == w.kc <= MaxKey /\ w' = NewKey(w) /\ out' = out \cup {NextKey(w)} /\ UNCHANGED used /\ Log([a |-> "new"])
Restore == \E n \in Some(Counts), s \in Some(Scans) :
  /\ w' = ScanKeys(Hold(IF n < 1 THEN 1 ELSE n, IF s < 0 THEN 3 ELSE s), used) /\ out' = 0..(n - 1) /\ UNCHANGED used
  /\ Log([a |-> "wallet", keys |-> n, scan |-> s])
Spend == \E k \in Some(ToSet(w.held)) : UNCHANGED <<used, w, out>> /\ Log([a |-> "spend", k |-> k])
Next == Len(hist) < MaxSteps /\ (Pay \/ Query \/ New \/ Restore)
Spec == Init /\ [][Next]_vars
View == <<used, w, out, Len(hist)>>

ManyCounts == {1, 2, 3, 5, 0, 0 - 1}
ManyScans == {0 - 1, 0, 1, 2, 3, 4, 6}
(* the random walk that prints programs, in the words of the harness *)
K(k) == <<"k", 1, k>>
Give(r) == [a |-> "give", outs |-> <<[r |-> r, v |-> R({1, 5, 20}), l |-> R({"none", "none", "hn", "tf"})]>>, conf |-> R(BOOLEAN)]
Wallet(n, s) == [a |-> "wallet", w |-> 1, keys |-> n, scan |-> s]
Paid(k) == CASE k[2] <= 55 -> Give(K(k[1]))
             [] k[2] <= 75 -> Give(<<"m", <<<<1, k[1]>>, <<9, R(0..1)>>>>, R(1..2)>>)
             [] k[2] <= 90 -> [a |-> "erc20", r |-> K(k[1])]
             [] OTHER -> [a |-> "mintcond", r |-> <<"m", <<<<1, k[1]>>, <<9, 0>>>>, 1>>]
WPay == \E k \in {R(0..MaxKey)}, n \in {R(1..100)} : used' = used \cup {k} /\ UNCHANGED <<w, out>> /\ Log(Paid(<<k, n>>))
WQuery == w' = ScanKeys(w, used) /\ UNCHANGED <<used, out>> /\ Log([a |-> R({"balance", "txs", "ercall"}), w |-> 1])
WNew == w' = NewKey(w) /\ out' = out \cup {NextKey(w)} /\ UNCHANGED used
        /\ Log(IF R(1..100) <= 70 THEN [a |-> "newaddr", w |-> 1, pub |-> R(BOOLEAN)] ELSE IF R(1..2) = 1 THEN [a |-> "ercreg", w |-> 1, src |-> <<>>, refund |-> <<>>]
               ELSE [a |-> "botnew", w |-> 1, months |-> 1, names |-> <<"mybot">>, src |-> <<>>, refund |-> <<>>])
WRestore == \E n \in {R(Counts)}, s \in {R(Scans)} :
  w' = ScanKeys(Hold(IF n < 1 THEN 1 ELSE n, IF s < 0 THEN 3 ELSE s), used) /\ out' = 0..((IF n < 1 THEN 1 ELSE n) - 1) /\ UNCHANGED used /\ Log(Wallet(n, s))
WSpend == \E k \in {R(ToSet(w.held))} : UNCHANGED <<used, w, out>> /\ Log([a |-> "send", w |-> 1, outs |-> <<[r |-> <<"x", 1>>, v |-> 1, l |-> "none"]>>,
             src |-> IF R(1..2) = 1 THEN <<>> ELSE <<K(k)>>, refund |-> <<>>])
WOther == UNCHANGED <<used, w, out>> /\ \E k \in {R(1..100)} :
  Log(CASE k <= 25 -> [a |-> "words", w |-> 1, i |-> R(0..23), word |-> R(0..2049)]
        [] k <= 40 -> [a |-> "fresh", w |-> 2, keys |-> R({1, 2})]
        [] k <= 55 -> [a |-> "give", outs |-> <<[r |-> K(0), v |-> 300, l |-> "none"]>>, conf |-> TRUE]
        [] OTHER -> [a |-> "mine", only |-> "all"])
Walk == /\ Len(hist) < MaxSteps
        /\ \E m \in {R(1..100)} : IF hist = <<>> THEN Log([Give(K(0)) EXCEPT !.outs = <<[r |-> K(0), v |-> 3000, l |-> "none"]>>, !.conf = TRUE]) /\ used' = {0} /\ UNCHANGED <<w, out>>
             ELSE IF Len(hist) = 1 THEN WRestore
             ELSE IF m <= 35 THEN WPay ELSE IF m <= 48 THEN WQuery ELSE IF m <= 63 THEN (IF w.kc <= MaxKey THEN WNew ELSE WQuery)
             ELSE IF m <= 78 THEN WRestore ELSE IF m <= 88 THEN WSpend ELSE WOther
Written == /\ Len(hist) = MaxSteps
           /\ PrintT("PROGRAM " \o ToJson([steps |-> hist, wallets |-> <<[late |-> TRUE, short |-> R(1..6) = 1], [late |-> TRUE, short |-> FALSE]>>]))
           /\ hist' = Append(hist, [a |-> "end"]) /\ UNCHANGED <<used, w, out>>
WalkSpec == Init /\ [][Walk \/ Written]_vars

Held == ToSet(w.held)
NoKeyTwice == Cardinality(Held \cup ToSet(w.gaps)) = Len(w.held) + Len(w.gaps)
NoneLost == Held \cup ToSet(w.gaps) = 0..(w.kc - 1)
HandedOutHeld == out \subseteq Held
GapsInOrder == \A k \in 1..(Len(w.gaps) - 1) : w.gaps[k] < w.gaps[k + 1]
RecoveryRight == hist # <<>> /\ hist[Len(hist)].a = "wallet" =>
  Held = Recovered(hist[Len(hist)].keys, hist[Len(hist)].scan, used)
KeepsKeys == [][hist'[Len(hist')].a # "wallet" => Held \subseteq Held']_vars
NextIsLowest == [][hist'[Len(hist')].a = "new" => \A k \in Held' \ Held : \A j \in 0..(k - 1) : j \in Held]_vars
=============================================================================
