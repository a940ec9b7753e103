------------------------------ MODULE LL1Trace ------------------------------
(* Recorded runs of the engine: a record is [id, g, w, c, p, x] - grammar,    *)
(* word, is it correct, position, what the actions noted.                     *)
EXTENDS LL1, TLC, Json, IOUtils
ASSUME TLCSet(11, TLCEval(JsonDeserialize(IOEnv.GRAMMARS)))
Gs == TLCGet(11)
ASSUME TLCSet(12, TLCEval([g \in 1..Len(Gs) |-> Table(Predict(Gs[g]))]))
Ts == TLCGet(12)
ASSUME TLCSet(13, TLCEval(ndJsonDeserialize(IOEnv.TRACE)))
Log == TLCGet(13)
VARIABLES id, m
vars == <<id, m>>
Same(m2, r) == r.c = (IF m2[4] = "accept" THEN 1 ELSE 0) /\ r.p = m2[1] /\ r.x = m2[3]
Init == id \in 1..Len(Log) /\ m = Start
Run == /\ m[4] = "run" /\ UNCHANGED id
       /\ m' = Moved(Gs[Log[id].g], Ts[Log[id].g], Log[id].w, m)
End == /\ m[4] \in {"accept", "reject"} /\ UNCHANGED id
       /\ m' = <<m[1], <<>>, m[3], "done">>
       /\ IF Same(m, Log[id]) THEN PrintT(<<"REPORT", "fine", Log[id].id, m[1], "0">>)
          ELSE PrintT(<<"REPORT", "differs", Log[id].id, m[1], ToJson(<<m[4], m[3]>>)>>)
Next == Run \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
