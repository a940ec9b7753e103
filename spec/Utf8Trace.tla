------------------------------ MODULE Utf8Trace ------------------------------
(* Recorded walks of the library's UTF-8 iterator: a record is [id, S, ev],  *)
(* an event [op, position, value, at the end?] after the operation.          *)
(*   f forward, b back, s set to the beginning, e set to the end,            *)
(*   a two steps forward, c two steps back                                   *)
EXTENDS Utf8, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, l, p
vars == <<id, l, p>>
Text == Log[id].S
Marks == Offsets(Text)
Index(q) == CHOOSE i \in 1..Len(Marks) : Marks[i] = q
To(op) == LET i == Index(p) IN
  CASE op = "s" -> 0
    [] op = "e" -> Len(Text)
    [] op = "f" -> Marks[i + 1]
    [] op = "a" -> Marks[i + 2]
    [] op = "b" -> Marks[i - 1]
    [] op = "c" -> Marks[i - 2]
Good(ev, q) == ev[2] = q /\ ev[4] = (IF q = Len(Text) THEN 1 ELSE 0) /\ ev[3] = IF q = Len(Text) THEN -1 ELSE Value(Text, q)
Init == id \in 1..Len(Log) /\ l = 1 /\ p = 0
Next == /\ l <= Len(Log[id].ev)
        /\ LET ev == Log[id].ev[l] q == To(ev[1]) IN
           /\ p' = q
           /\ ~Good(ev, q) => PrintT(<<"REPORT", "step", Log[id].id, l, ToJson(<<q, IF q = Len(Text) THEN -1 ELSE Value(Text, q)>>)>>)
        /\ l' = l + 1 /\ UNCHANGED id
Spec == Init /\ [][Next]_vars
=============================================================================
