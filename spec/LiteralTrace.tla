---------------------------- MODULE LiteralTrace ----------------------------
(* Recorded literals: a record is [id, ev], an event                         *)
(*   [type, units, code points, correct?, code points by index, by view] or  *)
(*   ["=", type, units, type, units, is_same_as?]                            *)
EXTENDS Literal, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, l
vars == <<id, l>>
Good(ev) == IF ev[1] = "="
  THEN (Kind(ev[2], ev[3]) = "good" /\ Kind(ev[4], ev[5]) = "good") => (ev[6] = 1) = (Denoted(ev[2], ev[3]) = Denoted(ev[4], ev[5]))
  ELSE LET k == Kind(ev[1], ev[2]) IN
       /\ ev[5] = ev[3] /\ ev[6] = ev[3]
       /\ k = "good" => ev[4] = 1 /\ ev[3] = Denoted(ev[1], ev[2])
       /\ k = "bad" => ev[4] = 0
Init == id \in 1..Len(Log) /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED id
        /\ LET bad == {i \in 1..Len(Log[id].ev) : ~Good(Log[id].ev[i])} IN
           IF bad = {} THEN TRUE ELSE \A i \in bad : PrintT(<<"REPORT", "literal", Log[id].id, i, "0">>)
Spec == Init /\ [][Next]_vars
=============================================================================
