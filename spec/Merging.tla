-------------------------------- MODULE Merging --------------------------------
(* Balances as values, and what adding one to another means. Every output *)
(* of a balance has a state; a merged balance knows the most advanced one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

States == <<"pending", "confirmed", "spent by a pending transaction", "spent">>   \* in this order: 1 to 4
Bigger(x, y) == IF x > y THEN x ELSE y
JoinOut(f, g) == [k \in DOMAIN f \cup DOMAIN g |->
  IF k \notin DOMAIN g THEN f[k] ELSE IF k \notin DOMAIN f THEN g[k] ELSE Bigger(f[k], g[k])]

(* a balance: its kind (W: of addresses, M: of one multisig wallet, S: of a wallet with its multisig wallets), the multisig address, *)
(* the chain tip (height and time; 0 if unknown; and the block's identifier), the state of every output, the addresses, and the multisig balances in it         *)
None == [x \in {} |-> 0]
EmptyB(k, m) == [k |-> k, m |-> m, h |-> 0, t |-> 0, id |-> "", out |-> None, addrs |-> {}, ws |-> None]
(* do the tips agree? "open" where the interface leaves it open *)
Tips(a, b) == IF a.h = b.h /\ a.t = b.t THEN "same"
              ELSE IF a.h = b.h \/ a.t = b.t THEN "open"
              ELSE IF (a.h > b.h) = (a.t > b.t) THEN "later" ELSE "bad"
Base(a, b) ==                              \* outputs, addresses and tip of b into a
  LET new == IF a.h >= b.h THEN a ELSE b
      id == IF a.h = b.h /\ a.id # b.id THEN "?" ELSE new.id       \* two blocks at one height: either
  IN [a EXCEPT !.h = new.h, !.t = new.t, !.id = id, !.out = JoinOut(a.out, b.out), !.addrs = @ \cup b.addrs]
Ok(b) == [b |-> b, is |-> "ok"]
Bad == [b |-> EmptyB("W", ""), is |-> "bad"]
Maybe == [b |-> EmptyB("W", ""), is |-> "open"]
AddBase(a, b) == CASE Tips(a, b) = "bad" -> Bad [] Tips(a, b) = "open" -> Maybe [] OTHER -> Ok(Base(a, b))
SubFor(a, m) == IF m \in DOMAIN a.ws THEN a.ws[m] ELSE EmptyB("M", m)
AddSub(a, m, b) == LET r == AddBase(SubFor(a, m), b) IN IF r.is = "ok" THEN Ok([a EXCEPT !.ws = (m :> r.b) @@ @]) ELSE r
RECURSIVE AddSubs(_, _, _)
AddSubs(a, b, ms) ==
  IF ms = {} THEN Ok(a)
  ELSE LET m == CHOOSE m \in ms : TRUE
           r == AddSub(a, m, b.ws[m])
       IN IF r.is = "ok" THEN AddSubs(r.b, b, ms \ {m})
          ELSE IF \E n \in ms : AddSub(a, n, b.ws[n]).is = "bad" THEN Bad ELSE r
AddToS(a, b) ==
  IF b.k = "M" THEN AddSub(a, b.m, b)
  ELSE LET r == AddBase(a, b) IN IF r.is # "ok" \/ b.k = "W" THEN r ELSE AddSubs(r.b, b, DOMAIN b.ws)
Add(a, b) ==
  CASE a.k = "S" -> AddToS(a, b)
    [] a.k = "M" /\ b.k = "M" -> IF a.m # b.m THEN Bad ELSE AddBase(a, b)
    [] a.k = "W" /\ b.k = "W" -> AddBase(a, b)
    [] OTHER -> LET r == AddToS(EmptyB("S", ""), a) IN IF r.is = "ok" THEN AddToS(r.b, b) ELSE r
(* an error in the middle of the multisig balances leaves a half merged balance behind *)
Half(a, b) == a.k = "S" /\ b.k = "S" /\ AddBase(a, b).is = "ok" /\ Add(a, b).is # "ok"

Put(a, id, addr, multi, n) ==              \* one output in state n
  LET put(x) == [x EXCEPT !.out = JoinOut(@, (id :> n)), !.addrs = @ \cup {addr}]
  IN IF a.k = "S" /\ multi THEN [a EXCEPT !.ws = (addr :> put(SubFor(a, addr))) @@ @] ELSE put(a)
=============================================================================
