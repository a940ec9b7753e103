------------------------------- MODULE Access -------------------------------
(* What a result looks like from outside. A capture is <<>> (not matched) or *)
(* <<b, e>> in units of the subject S; every accessor is a function of that. *)
(* A number is the longest prefix of the text which is a number of the type  *)
(* in the base, 0 if there is none or it does not fit; numbers are written   *)
(* as texts, so that they are not limited by the numbers of the tool.        *)
EXTENDS Integers, Sequences

\* --- numbers as digits, the most significant one first, without leading zeros
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
\* d * 2 in base b
Twice(d, b) ==
  LET RECURSIVE go(_, _)
      go(k, carry) == IF k = 0 THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                      ELSE LET v == 2 * d[k] + carry IN go(k - 1, v \div b) \o <<v % b>>
  IN go(Len(d), 0)
RECURSIVE Pow2(_, _)
Pow2(k, b) == IF k = 0 THEN <<1>> ELSE Twice(Pow2(k - 1, b), b)
Less(x, y) == \/ Len(x) < Len(y)
              \/ Len(x) = Len(y) /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]

Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
Glyph(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _, _)
Digits(t, i, base) == IF i <= Len(t) /\ Digit(t[i]) < base THEN <<Digit(t[i])>> \o Digits(t, i + 1, base) ELSE <<>>
Zero == <<48>>
Number(t, bits, signed, base) ==
  LET neg == signed = 1 /\ t # <<>> /\ t[1] = 45
      d == Strip(Digits(t, IF neg THEN 2 ELSE 1, base))
      limit == Pow2(IF signed = 1 THEN bits - 1 ELSE bits, base)
      fits == Less(d, limit) \/ (neg /\ d = limit)
  IN IF d = <<>> \/ ~fits THEN Zero
     ELSE (IF neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(d) |-> Glyph(d[i])]

\* --- one capture; steps(b, e): the length in characters
Text(S, c) == IF c = <<>> THEN <<>> ELSE SubSeq(S, c[1] + 1, c[2])
B(p) == IF p THEN 1 ELSE 0
GoodNumber(S, c, v) ==
  v[5] = IF v[4] = 1 /\ c = <<>> THEN <<63>> ELSE Number(Text(S, c), v[1], v[2], v[3])
GoodCompared(S, c, v) ==
  LET same == B(c # <<>> /\ Text(S, c) = v[1])
  IN v[2] = same /\ v[3] = same /\ v[4] = 1 - same /\ v[5] = 1 - same
Field(S, c, k, size, f, v) ==
  CASE f = "ok" -> v = B(c # <<>>)
    [] f = "size" -> v = Len(Text(S, c))      \* code units
    [] f = "chars" -> v = size                \* steps of the iterator
    [] f = "units" -> v = Len(Text(S, c))
    [] f = "id" -> v = k
    [] f = "span" -> v = c
    [] f = "texts" -> \A i \in 1..Len(v) : v[i] = Text(S, c)
    [] f = "opts" -> \A i \in 1..Len(v) : v[i] = IF c = <<>> THEN <<>> ELSE <<Text(S, c)>>
    \* std::optional constructed from a capture takes its text and never asks whether it matched: a known finding
    [] f = "direct" -> \A i \in 1..Len(v) : v[i] = <<Text(S, c)>> \/ (c = <<>> /\ v[i] = <<>>)
    [] f = "at" -> \A i \in 1..Len(v) : v[i] = c[1]
    [] f = "cmp" -> \A i \in 1..Len(v) : GoodCompared(S, c, v[i])
    [] f = "num" -> \A i \in 1..Len(v) : GoodNumber(S, c, v[i])
\* accessors which say something else
Wrong(S, c, k, size, view) == {f \in DOMAIN view : ~Field(S, c, k, size, f, view[f])}
Deviation(c, view) == c = <<>> /\ "direct" \in DOMAIN view /\ \E i \in 1..Len(view.direct) : view.direct[i] # <<>>
\* a matched capture cannot hide its position
Complete(c, view) == c # <<>> => "span" \in DOMAIN view
=============================================================================
