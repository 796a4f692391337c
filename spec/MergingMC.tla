------------------------------ MODULE MergingMC ------------------------------
(* The laws of merging, for all small balances *)
EXTENDS Merging
CONSTANTS Outs, Rich                        \* outputs; with multisig balances?
Fns == UNION {[S -> 1..4] : S \in SUBSET Outs}
Times == {<<0, 0>>, <<1, 1>>, <<2, 2>>, <<3, 1>>}
Plain(k, m) == {[EmptyB(k, m) EXCEPT !.h = t[1], !.t = t[2], !.out = f, !.addrs = DOMAIN f] : f \in Fns, t \in Times}
Subs == {[x \in {} |-> 0]} \cup {("m" :> b) : b \in Plain("M", "m")}
Few == {b \in Plain("S", "") : b.h # 3 /\ b.addrs \subseteq {CHOOSE o \in Outs : TRUE}}
All == IF Rich THEN Plain("M", "n") \cup {[b EXCEPT !.ws = w] : b \in Few, w \in Subs} ELSE Plain("W", "") \cup Plain("M", "m")
VARIABLES a, b, c
Init == a \in All /\ b \in All /\ c = EmptyB("?", "")
Next == c.k = "?" /\ c' \in (IF Rich THEN Few ELSE All) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>

Then(r, x) == IF r.is = "ok" THEN Add(r.b, x) ELSE r
Content(r) == IF r.is = "ok" THEN [r EXCEPT !.b.k = "", !.b.m = ""] ELSE r
Same(r, q) == r.is # "ok" \/ q.is # "ok" \/ [r.b EXCEPT !.k = ""] = [q.b EXCEPT !.k = ""]
Commutes == Same(Add(a, b), Add(b, a))
Idempotent == Add(a, a) = Ok(a)
Again == Add(a, b).is = "ok" => Then(Add(a, b), b) = Add(a, b) /\ (a.k # "M" \/ b.k = "M" => Then(Add(a, b), a) = Add(a, b))
Grouped == c.k = "?" \/  LET l == Then(Add(a, b), c) r == Add(b, c) IN r.is = "ok" => Same(l, Add(a, r.b))
NothingLost == Add(a, b).is = "ok" => \A x \in {a, b} : x.k # "M" => \A k \in DOMAIN x.out : Add(a, b).b.out[k] >= x.out[k]
NotMixed == a.k = "M" /\ b.k = "M" /\ a.m # b.m => Add(a, b).is = "bad"
=============================================================================
