------------------------------ MODULE Literal ------------------------------
(* The text of a pattern: which code points a literal denotes. A literal is  *)
(* a sequence of units of a type:                                            *)
(*   "n" narrow (bytes), "8" UTF-8, "16" UTF-16, "32" and "w" code points.   *)
EXTENDS Utf8

High(u) == u >= 55296 /\ u < 56320
Low(u) == u >= 56320 /\ u < 57344
Surrogate(u) == u >= 55296 /\ u < 57344

\* --- UTF-8 -----------------------------------------------------------------
Least(k) == CASE k = 1 -> 0 [] k = 2 -> 128 [] k = 3 -> 2048 [] k = 4 -> 65536
Step8(S, p) == LET u == S[p + 1] e == StepEnd(S, p) IN
  IF Trailing(u) THEN "bad"
  ELSE IF u >= 248 THEN "any"
  ELSE IF e # p + 1 + Follow(u) THEN IF e < Len(S) THEN "bad" ELSE "any"
  ELSE LET v == Value(S, p) IN IF v < Least(e - p) \/ v > 1114111 \/ Surrogate(v) THEN "any" ELSE "good"
RECURSIVE Kind8(_, _)
Kind8(S, p) == IF p = Len(S) THEN "good"
  ELSE CASE Step8(S, p) = "good" -> Kind8(S, StepEnd(S, p)) [] OTHER -> Step8(S, p)

\* --- UTF-16 ----------------------------------------------------------------
RECURSIVE Kind16(_, _)
Kind16(S, p) == IF p = Len(S) THEN "good"
  ELSE IF High(S[p + 1]) THEN IF p + 1 = Len(S) THEN "any" ELSE IF Low(S[p + 2]) THEN Kind16(S, p + 2) ELSE "bad"
  ELSE IF Low(S[p + 1]) THEN "any"
  ELSE Kind16(S, p + 1)
RECURSIVE Points16(_, _)
Points16(S, p) == IF p = Len(S) THEN <<>>
  ELSE IF High(S[p + 1]) THEN <<65536 + (S[p + 1] - 55296) * 1024 + (S[p + 2] - 56320)>> \o Points16(S, p + 2)
  ELSE <<S[p + 1]>> \o Points16(S, p + 1)

\* "good": the literal denotes Denoted; "bad": it is not a text, and known to be none; "any": not specified
Kind(ty, S) == CASE ty = "8" -> Kind8(S, 0) [] ty = "16" -> Kind16(S, 0) [] OTHER -> "good"
Denoted(ty, S) == CASE ty = "8" -> Points(S) [] ty = "16" -> Points16(S, 0) [] OTHER -> S

\* how a text is written in a type
Write16(v) == IF v < 65536 THEN <<v>> ELSE <<55296 + (v - 65536) \div 1024, 56320 + ((v - 65536) % 1024)>>
RECURSIVE Write(_, _)
Write(ty, t) == IF t = <<>> THEN <<>>
  ELSE (CASE ty = "8" -> Encode(t[1]) [] ty = "16" -> Write16(t[1]) [] OTHER -> <<t[1]>>) \o Write(ty, Tail(t))
=============================================================================
