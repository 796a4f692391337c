--------------------------------- MODULE Keys ---------------------------------
(* The keys of a wallet, by their numbers: those it holds in the order in  *)
(* which it got them, the gaps it skipped, and the number kc it goes on at.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Hold(n, scan) == [scan |-> scan, held |-> [k \in 1..n |-> k - 1], kc |-> n, gaps |-> <<>>]
(* windows of keys behind the last one are looked at until one does not end with a used key *)
RECURSIVE ScanWindow(_, _)
ScanWindow(W, U) ==
  LET used == (W.kc..(W.kc + W.scan - 1)) \cap U IN
  IF used = {} THEN W
  ELSE LET last == Max(used)
           found == [k \in 1..(last - W.kc + 1) |-> W.kc + k - 1]
           W2 == [W EXCEPT !.held = @ \o SelectSeq(found, LAMBDA k : k \in used),
                           !.gaps = @ \o SelectSeq(found, LAMBDA k : k \notin used), !.kc = last + 1]
       IN IF last = W.kc + W.scan - 1 THEN ScanWindow(W2, U) ELSE W2
ScanKeys(W, U) == IF W.gaps # <<>> \/ W.scan = 0 THEN W ELSE ScanWindow(W, U)
NewKey(W) == IF W.gaps # <<>> THEN [W EXCEPT !.held = Append(@, W.gaps[1]), !.gaps = Tail(@)]
             ELSE [W EXCEPT !.held = Append(@, W.kc), !.kc = @ + 1]
NextKey(W) == IF W.gaps # <<>> THEN W.gaps[1] ELSE W.kc
(* what recovering n keys has to find, said without a procedure *)
Recovered(n, scan, used) ==
  LET window(j) == (n + j * scan)..(n + (j + 1) * scan - 1)
      reached(j) == \A i \in 0..(j - 1) : n + (i + 1) * scan - 1 \in used
      js == IF scan = 0 THEN {} ELSE {j \in 0..Cardinality(used) : reached(j)}
  IN (0..(n - 1)) \cup UNION {window(j) \cap used : j \in js}
=============================================================================
