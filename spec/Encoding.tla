------------------------------ MODULE Encoding ------------------------------
(* The two binary encodings as functions of typed values. A value is a       *)
(* tuple: a kind and its contents.                                           *)
(*   <<"int", decimal>> <<"bool", b>> <<"bytes", hex>> <<"text", string>>    *)
(*   <<"list", values>>                            a sequence of any form    *)
(*   <<"cur", units>> <<"stake", number>> <<"bin", hex>> <<"hash", hex>>     *)
(*   <<"addr", text>> <<"pk", text>> <<"cond", JSON>> <<"fulf", JSON>>       *)
(*   <<"in", JSON>> <<"out", JSON>> <<"net", text>> <<"name", text>>         *)
(*   <<"float", text>> <<"none">> <<"thing">>      never a value             *)
(* Writing a value with an operation of an encoder gives                     *)
(*   [r |-> "ok", b |-> bytes], "may" (if accepted, exactly b) or "no".      *)
EXTENDS Wire

Val(b) == [r |-> "ok", b |-> b]
Perhaps(b) == [r |-> "may", b |-> b]
Bad == [r |-> "no", b |-> <<>>]
Open == [r |-> "free", b |-> <<>>]
Objects == {"cur", "stake", "bin", "hash", "addr", "pk", "cond", "fulf", "in", "out", "net", "name"}

(* a number of n bytes *)
WriteInt(s, n) == IF IsDec(s) /\ Len(Dec(s)) <= n THEN Val(BPad(Dec(s), n)) ELSE Bad
MaxSlice(f) == BOfInt(536870912)                    \* 2^29, in the rivine format
Prefix(f, n) == IF f = "riv" /\ ~BLt(BOfInt(n), MaxSlice(f)) THEN Bad ELSE Val(LenPrefix(f, n))
Join(xs) ==                                          \* one after another
  IF \E k \in 1..Len(xs) : xs[k].r = "no" THEN Bad
  ELSE IF \E k \in 1..Len(xs) : xs[k].r = "free" THEN Open
  ELSE [r |-> IF \E k \in 1..Len(xs) : xs[k].r = "may" THEN "may" ELSE "ok", b |-> Cat(Map(LAMBDA x : x.b, xs))]
RawOf(v) == IF v[1] = "text" THEN Utf8(v[2]) ELSE Hex(v[2])

(* an address of four numbers may be written as one of eight groups *)
Unmapped(s) == LET u == Utf8(s) IN IF Len(u) > 7 /\ SubSeq(u, 1, 7) = <<58, 58, 102, 102, 102, 102, 58>> THEN StrOf(SubSeq(u, 8, Len(u))) ELSE s
WriteObject(f, v) ==
  CASE v[1] = "cur" -> EncAmount(f, Dec(v[2]))
    [] v[1] = "stake" -> EncAmount(f, Dec(v[2]))
    [] v[1] = "bin" -> Slice(f, Hex(v[2]))
    [] v[1] = "hash" -> Hex(v[2])
    [] v[1] = "addr" -> EncAddr(v[2])
    [] v[1] = "pk" -> EncPk(f, v[2])
    [] v[1] = "cond" -> EncCond(f, v[2])
    [] v[1] = "fulf" -> EncFulf(f, v[2])
    [] v[1] = "in" -> EncIn(f, v[2])
    [] v[1] = "out" -> EncOut(f, v[2])
    [] v[1] = "net" -> EncBotAddr(Unmapped(v[2]))
    [] v[1] = "name" -> Slice(f, Utf8(v[2]))

RECURSIVE Write(_, _, _)
Write(f, op, v) ==
  LET k == v[1]
      raw == k \in {"bytes", "text", "utf"}
      parts == IF k = "list" THEN [x \in 1..Len(v[2]) |-> Write(f, "add", v[2][x])] ELSE <<>>
      number(n) == IF k = "int" THEN WriteInt(v[2], n)
                   ELSE IF k = "bool" THEN Open          \* a truth value is a number to some
                   ELSE IF k \in {"float", "dec", "frac"} THEN Bad          \* (none of those we use is whole)
                   ELSE IF k \in Objects THEN Open ELSE Bad
  IN CASE op = "add" ->
            (IF k = "bool" THEN Val(<<IF v[2] THEN 1 ELSE 0>>)
             ELSE IF k = "int" THEN number(8)
             ELSE IF k \in Objects THEN Val(WriteObject(f, v))
             ELSE IF raw \/ k = "list" THEN Write(f, "slice", v) ELSE Bad)
       [] op = "byte" ->
            (IF raw THEN (IF Len(RawOf(v)) = 1 THEN Val(RawOf(v)) ELSE Bad)
             ELSE IF k = "list" THEN Bad ELSE number(1))
       [] op = "array" -> (IF raw THEN Val(RawOf(v)) ELSE IF k = "list" THEN Join(parts) ELSE IF k \in Objects THEN Open ELSE Bad)
       [] op = "slice" -> (IF raw THEN Join(<<Prefix(f, Len(RawOf(v))), Val(RawOf(v))>>)
                           ELSE IF k = "list" THEN Join(<<Prefix(f, Len(v[2]))>> \o parts)
                           ELSE IF k \in Objects THEN Open ELSE Bad)
       [] op = "all" -> Join(parts)
       [] op = "int" -> number(8)                         \* of the sia encoding
       [] op = "int8" -> number(1)
       [] op = "int16" -> number(2)
       [] op = "int24" -> number(3)
       [] op = "int32" -> number(4)
       [] op = "int64" -> number(8)
Ops(f) == IF f = "sia" THEN {"add", "byte", "array", "slice", "all", "int"}
          ELSE {"add", "byte", "array", "slice", "all", "int8", "int16", "int24", "int32", "int64"}
=============================================================================
