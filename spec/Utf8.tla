-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 texts: a sequence of code units falls into steps, and every step is *)
(* one character. A complete sequence is the code point it encodes; anything *)
(* else is U+FFFD: a unit which does not begin a sequence alone, and a       *)
(* sequence which is cut short with the units it has.                        *)
EXTENDS Integers, Sequences

Mojibake == 65533
Trailing(u) == u >= 128 /\ u < 192
\* how many units have to follow a unit
Follow(u) == IF u >= 192 /\ u < 224 THEN 1 ELSE IF u >= 224 /\ u < 240 THEN 2 ELSE IF u >= 240 /\ u < 248 THEN 3 ELSE 0
\* positions are 0-based, p < Len(S)
RECURSIVE Taken(_, _, _)
Taken(S, p, k) == IF k > 0 /\ p < Len(S) /\ Trailing(S[p + 1]) THEN 1 + Taken(S, p + 1, k - 1) ELSE 0
StepEnd(S, p) == p + 1 + Taken(S, p + 1, Follow(S[p + 1]))
RECURSIVE Join(_, _, _, _)
Join(S, p, q, v) == IF p = q THEN v ELSE Join(S, p + 1, q, v * 64 + (S[p + 1] - 128))
Value(S, p) == LET u == S[p + 1] f == Follow(u) e == StepEnd(S, p) IN
  IF u < 128 THEN u
  ELSE IF f = 0 \/ e # p + 1 + f THEN Mojibake
  ELSE Join(S, p + 1, e, CASE f = 1 -> u - 192 [] f = 2 -> u - 224 [] f = 3 -> u - 240)
RECURSIVE StepsFrom(_, _)
StepsFrom(S, p) == IF p >= Len(S) THEN <<>> ELSE <<[b |-> p, e |-> StepEnd(S, p), v |-> Value(S, p)]>> \o StepsFrom(S, StepEnd(S, p))
Steps(S) == StepsFrom(S, 0)
\* the code points, and the position in units of every position in code points
Points(S) == LET t == Steps(S) IN [i \in 1..Len(t) |-> t[i].v]
Offsets(S) == LET t == Steps(S) IN [i \in 1..(Len(t) + 1) |-> IF i <= Len(t) THEN t[i].b ELSE Len(S)]

Encode(v) ==
  IF v < 128 THEN <<v>>
  ELSE IF v < 2048 THEN <<192 + v \div 64, 128 + (v % 64)>>
  ELSE IF v < 65536 THEN <<224 + v \div 4096, 128 + ((v \div 64) % 64), 128 + (v % 64)>>
  ELSE <<240 + v \div 262144, 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
=============================================================================
