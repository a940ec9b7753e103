----------------------------- MODULE SyntaxTrace -----------------------------
(* What the library says about texts: a record is [id, pat, acc, how]; acc   *)
(* is 1 if the text was accepted as a pattern. how = "parse": by the parser  *)
(* alone, which may or may not know about names of groups; how = "compile":  *)
(* by a call with the pattern. uni: with ctre-unicode.hpp, so that properties *)
(* of the pattern have to exist.                                              *)
EXTENDS Parser, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
Judge(rec) ==
  LET r == Parse(rec.pat)
      all == r.ok /\ RefsExist(r.x, r.names)
      acc == rec.acc = 1
      props == IF r.ok THEN PropKinds(r.x) ELSE {}
  IN IF props # {} /\ ("uni" \notin DOMAIN rec \/ "any" \in props) THEN TRUE
     ELSE IF "no" \in props THEN ~acc
     ELSE IF acc = all THEN TRUE
     ELSE IF acc THEN rec.how = "parse" /\ r.ok
     ELSE rec.how = "compile" /\ BehindLimit(r.x, FALSE)

Init == id \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED id
        /\ ~Judge(Log[id]) => PrintT(<<"REPORT", "accept", Log[id].id, Log[id].acc, ToJson(Log[id].acc = 0)>>)
Spec == Init /\ [][Next]_<<id, done>>
=============================================================================
