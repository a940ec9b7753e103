------------------------------- MODULE Accept -------------------------------
(* Which of the texts of a file (environment TEXTS, one JSON array of code   *)
(* points per line) are patterns: 0 rejected, 1 accepted, 2 accepted but in  *)
(* the known gap of lookbehinds, 3 accepted and uses Unicode properties,     *)
(* 4 uses a property which does not exist, 5 one which need not be known.    *)
EXTENDS Parser, TLC, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.TEXTS)
VARIABLE i
Verdict(T) == LET r == Parse(T) IN
  IF ~(r.ok /\ RefsExist(r.x, r.names)) THEN 0
  ELSE IF "no" \in PropKinds(r.x) THEN 4
  ELSE IF "any" \in PropKinds(r.x) THEN 5
  ELSE IF PropKinds(r.x) # {} THEN 3
  ELSE IF BehindLimit(r.x, FALSE) THEN 2 ELSE 1
Init == i \in 1..Len(Texts)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
Emit == PrintT(<<"REPORT", "accept", i, Verdict(Texts[i]), "0">>)
=============================================================================
