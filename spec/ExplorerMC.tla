------------------------------ MODULE ExplorerMC ------------------------------
(* All queries over a few explorers, which may behave in any way: the way   *)
(* of asking in Explorer has the guarantees that users rely on.             *)
EXTENDS Explorer, TLC
CONSTANTS Count                        \* how many explorers
VARIABLES m, bs, asked, out
vars == <<m, bs, asked, out>>
Es == 1..Count
Open == [end |-> "", why |-> "", by |-> 0]
Statuses == {200, 202, 204, 400, 404, 500}
Simple == {[kind |-> k, status |-> 0, gone |-> FALSE] : k \in {"unresolved", "refused", "closed", "garbage"}}
Replies == {[kind |-> k, status |-> s, gone |-> FALSE] : k \in {"cut", "reply"}, s \in Statuses} \cup {[kind |-> "reply", status |-> 400, gone |-> TRUE]}
Behaviours == Simple \cup Replies

Init == m \in {"GET", "POST"} /\ bs \in [Es -> Behaviours] /\ asked = <<>> /\ out = Open
Ask == out = Open /\ \E e \in Es : MayAsk(bs, asked, m, e) /\ asked' = Append(asked, e) /\ UNCHANGED <<m, bs, out>>
End == out = Open /\ \E o \in Outcomes(bs, asked, m) : out' = o /\ UNCHANGED <<m, bs, asked>>
Next == Ask \/ End
MCSpec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ok(e) == bs[e].kind = "reply" /\ bs[e].status = 200
Reached(e) == bs[e].kind \notin Unreachable
Failed == out # Open /\ out.end = "fails"
NobodyTwice == Cardinality(RangeOf(asked)) = Len(asked)
(* what is returned comes from the first explorer asked that could be reached *)
NeverInvented == out # Open /\ out.end = "body" => Ok(out.by) /\ out.by = asked[Len(asked)]
                   /\ \A k \in 1..(Len(asked) - 1) : ~(bs[asked[k]].kind = "reply")
(* when whoever can be reached answers well, the query fails only if nobody can be reached *)
SucceedsIfPossible == (\A e \in Es : Reached(e) => Ok(e)) /\ (\E e \in Es : Reached(e)) => ~Failed
UnavailableOnlyIfSo == out = Fails("unavailable") => \A e \in Es : bs[e].kind # "reply"
NotFoundOnlyIfSaid == out = Fails("none") => \E k \in 1..Len(asked) : bs[asked[k]].status \in {204, 400, 404}
(* a submission is handed to nobody else once an explorer began to answer it *)
OneSubmission == m = "POST" => \A k \in 1..(Len(asked) - 1) : bs[asked[k]].kind \notin {"reply", "cut"}
Rejections == m = "POST" => out \notin {Fails("none"), Fails("server")}
Finishes == <>(out # Open)
===============================================================================
