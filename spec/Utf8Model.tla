------------------------------ MODULE Utf8Model ------------------------------
(* Walking over every text of at most MaxN code units of an alphabet, in     *)
(* both directions, the way an iterator has to do it (it looks only at the   *)
(* units near its position).                                                 *)
EXTENDS Utf8, TLC, FiniteSets
CONSTANTS Alphabet, MaxN
VARIABLES text, p
vars == <<text, p>>
Init == text \in UNION {[1..n -> Alphabet] : n \in 0..MaxN} /\ p \in {0, Len(text)}
\* back: to the beginning of the sequence the unit in front of p belongs to
RECURSIVE Front(_, _, _)
Front(q, d, T) == IF q > 0 /\ d < 3 /\ Trailing(T[q + 1]) THEN Front(q - 1, d + 1, T) ELSE q
Back(T, q) == LET f == Front(q - 1, 0, T) d == q - 1 - f IN IF Follow(T[f + 1]) >= d THEN f ELSE q - 1
Forward == p < Len(text) /\ p' = StepEnd(text, p) /\ UNCHANGED text
Backward == p > 0 /\ p' = Back(text, p) /\ UNCHANGED text
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars
Marks == {0, Len(text)} \cup {Steps(text)[i].b : i \in 1..Len(Steps(text))}
\* every position ever visited is one of the same positions, in both directions
SamePositions == p \in Marks
BackUndoes == /\ p < Len(text) => Back(text, StepEnd(text, p)) = p
              /\ p > 0 => StepEnd(text, Back(text, p)) = p
\* every unit belongs to exactly one step
Partition == LET t == Steps(text) IN
  /\ \A i \in 1..Len(t) : t[i].b < t[i].e /\ t[i].e - t[i].b <= 4 /\ (IF i = 1 THEN t[i].b = 0 ELSE t[i].b = t[i - 1].e)
  /\ Len(t) > 0 => t[Len(t)].e = Len(text)
\* encoding a text of code points and walking over it gives the code points back
CodePoints == {0, 10, 65, 127, 128, 233, 2047, 2048, 8364, 65533, 65535, 65536, 128512, 1114111}
RECURSIVE EncodeAll(_)
EncodeAll(vs) == IF vs = <<>> THEN <<>> ELSE Encode(Head(vs)) \o EncodeAll(Tail(vs))
ASSUME \A v \in CodePoints, w \in CodePoints : Points(EncodeAll(<<v, w, v>>)) = <<v, w, v>>
ASSUME \A v \in CodePoints, w \in CodePoints : Offsets(EncodeAll(<<v, w>>)) = <<0, Len(Encode(v)), Len(Encode(v)) + Len(Encode(w))>>
=============================================================================
