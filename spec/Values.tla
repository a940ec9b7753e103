------------------------------- MODULE Values -------------------------------
(* The values of a code point: general category, script, script extensions,  *)
(* age, block and numeric value (Unicode 14.0), and the walk over the script *)
(* extensions of a code point.                                               *)
EXTENDS Unicode, TLC
\* <<code point, m, e, d>>: the numeric value is m * 10^e / d
ASSUME TLCSet(21, TLCEval(JsonDeserialize("data/numeric.json")))
UNums == TLCGet(21)
\* how many code points below c have a numeric value
RECURSIVE UNumsIn(_, _, _)
UNumsIn(c, a, b) == IF a > b THEN a - 1 ELSE LET m == (a + b) \div 2 IN IF UNums[m][1] < c THEN UNumsIn(c, m + 1, b) ELSE UNumsIn(c, a, m - 1)
UNumsBelow(c) == UNumsIn(c, 1, Len(UNums))
\* the places of the numeric values of the code points first..last
UNumsOf(first, last) == UNumsBelow(first) + 1 .. UNumsBelow(last + 1)
RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN 1 ELSE 10 * Pow10(e - 1)
\* a number is <<m, e, d>>; far apart exponents are not compared: m and d are small
SameNumber(x, y) ==
  LET e == IF x[2] < y[2] THEN x[2] ELSE y[2] IN
  IF x[2] - e > 4 \/ y[2] - e > 4 THEN x[1] = 0 /\ y[1] = 0
  ELSE x[1] * Pow10(x[2] - e) * y[3] = y[1] * Pow10(y[2] - e) * x[3]

\* what is above the last code point
UBeyond == [gc |-> "cn", sc |-> "zzzz", scx |-> <<"zzzz">>, blk |-> "nb", age |-> "na", bin |-> <<>>]
\* a view of script extensions has no "unknown"
UScripts(f) == {f.scx[i] : i \in 1..Len(f.scx)} \ {"zzzz"}

\* --- the walk over script extensions: a position in a sequence of scripts -------
WalkEnd == "end"
WalkAt(order, p) == IF p <= Len(order) THEN order[p] ELSE WalkEnd
\* what may be done: look, compare with the end, and (not at the end) step
WalkMay(order, p, op) == op \in {"deref", "atend"} \/ (op \in {"pre", "post"} /\ p <= Len(order)) \/ (op = "prepre" /\ p < Len(order))
WalkTo(order, p, op) == CASE op \in {"pre", "post"} -> p + 1 [] op = "prepre" -> p + 2 [] OTHER -> p
\* what it gives: the value at the position after a prefix ++, before a postfix ++
WalkGives(order, p, op) ==
  CASE op = "deref" -> WalkAt(order, p)
    [] op = "atend" -> IF p > Len(order) THEN "yes" ELSE "no"
    [] op = "pre" -> WalkAt(order, p + 1)
    [] op = "prepre" -> WalkAt(order, p + 2)
    [] op = "post" -> WalkAt(order, p)
=============================================================================
