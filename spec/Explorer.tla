------------------------------- MODULE Explorer -------------------------------
(* A query over several explorers. Each of them behaves in some way while   *)
(* the query runs; the client asks one after the other, each at most once,  *)
(* in whatever order it likes, for as long as none could be reached, and    *)
(* ends with what the reached one answered or with the error that belongs   *)
(* to it. A behaviour is a record [kind, status, gone]: gone says whether   *)
(* an error text tells that what was asked for does not exist.              *)
EXTENDS Naturals, Sequences, FiniteSets

(* the name does not resolve, no connection, or a connection that ends before any answer *)
Unreachable == {"unresolved", "refused", "timeout", "unroutable", "dropped", "reset", "closed"}
(* an answer that is no HTTP, or that ends before its end, or a complete one *)
Kinds == Unreachable \cup {"garbage", "cut", "reply"}

Fails(class) == [end |-> "fails", why |-> class, by |-> 0]
Gives(e) == [end |-> "body", why |-> "", by |-> e]
(* the errors that belong to an answer which reports an error *)
Errors(b, m) ==
  IF m = "POST" THEN {"rejected"}
  ELSE IF b.status = 204 THEN {"none"}
  ELSE IF b.status = 404 THEN {"none", "server"}
  ELSE IF b.status = 400 THEN (IF b.kind = "cut" THEN {"none", "server"} ELSE IF b.gone THEN {"none"} ELSE {"server"})
  ELSE {"server"}
(* may the client turn to another explorer after this one? *)
GoesOn(b, m) == b.kind \in Unreachable \/ b.kind = "garbage" \/ (b.kind = "cut" /\ b.status = 200 /\ m = "GET")
(* how the query may end after this one *)
Ends(b, e, m) ==
  CASE b.kind \in Unreachable -> {}
    [] b.kind = "garbage" -> {Fails("any")}
    [] b.status # 200 -> {Fails(c) : c \in Errors(b, m)}
    [] b.kind = "cut" -> {Fails("any")}
    [] b.kind = "reply" -> {Gives(e)}

RangeOf(q) == {q[k] : k \in 1..Len(q)}
(* the outcomes that a query over the behaviours bs may have after the explorers asked were asked *)
Outcomes(bs, asked, m) ==
  IF asked = <<>> THEN {}
  ELSE LET e == asked[Len(asked)]
       IN Ends(bs[e], e, m) \cup (IF GoesOn(bs[e], m) /\ RangeOf(asked) = DOMAIN bs THEN {Fails("unavailable")} ELSE {})
MayAsk(bs, asked, m, e) == e \in DOMAIN bs \ RangeOf(asked) /\ IF asked = <<>> THEN TRUE ELSE GoesOn(bs[asked[Len(asked)]], m)
===============================================================================
