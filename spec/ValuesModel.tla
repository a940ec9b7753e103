---------------------------- MODULE ValuesModel -----------------------------
(* All code points with a numeric value, one after the other, and all walks  *)
(* over all sets of script extensions.                                       *)
EXTENDS Values, SequencesExt
VARIABLES k, order, p
vars == <<k, order, p>>
Orders == {SetToSeq(UScripts(UProfiles[j])) : j \in 1..Len(UProfiles)}
Init == \/ k = 1 /\ order = <<>> /\ p = 1
        \/ k = 0 /\ order \in Orders /\ p = 1
NextNumber == k > 0 /\ k < Len(UNums) /\ k' = k + 1 /\ UNCHANGED <<order, p>>
Step == /\ k = 0
        /\ \E op \in {"deref", "atend", "pre", "post", "prepre"} :
             /\ WalkMay(order, p, op)
             /\ p' = WalkTo(order, p, op)
        /\ UNCHANGED <<k, order>>
Next == NextNumber \/ Step
Spec == Init /\ [][Next]_vars

Inside == p \in 1..Len(order) + 1
\* only scripts of the code point are given
Given == \A op \in {"deref", "pre", "post", "prepre"} : WalkMay(order, p, op) => WalkGives(order, p, op) \in ToSet(order) \cup {WalkEnd}
\* a walk of postfix steps gives each script once
Once == \A i, j \in 1..Len(order) : i # j => WalkGives(order, i, "post") # WalkGives(order, j, "post")
Ends == (WalkGives(order, p, "atend") = "yes") = (WalkGives(order, p, "deref") = WalkEnd)
Forms == WalkMay(order, p, "pre") => WalkGives(order, p, "pre") = WalkGives(order, WalkTo(order, p, "post"), "deref")

\* numbers
Num == UNums[k]
C == Num[1]
F(c) == UProfileAt(c)
Sorted == k > 1 => UNums[k - 1][1] < C
Reduced == Num[4] > 0 /\ Num[3] >= 0 /\ (Num[3] > 0 => Num[4] = 1)
ValuesOf == <<Num[2], Num[3], Num[4]>>
Own == UNumsOf(C, C) = {k} /\ SameNumber(ValuesOf, ValuesOf)
Decimal == F(C).gc = "nd" =>
  /\ Num[2] \in 0..9 /\ Num[3] = 0 /\ Num[4] = 1
  /\ IF F(C + 1).gc = "nd" THEN UNums[k + 1][1] = C + 1 /\ UNums[k + 1][2] = (Num[2] + 1) % 10
     ELSE Num[2] = 9
  /\ (IF C > 0 /\ F(C - 1).gc = "nd" THEN TRUE ELSE Num[2] = 0)
OfWhom == F(C).gc \in {"nd", "nl", "no", "lo"}
Numbers == k > 0 => Sorted /\ Reduced /\ Own /\ Decimal /\ OfWhom
Walks == k = 0 => Inside /\ Given /\ Once /\ Ends /\ Forms
\* what is a number has a value
ASSUME \A j \in 1..Len(USegs) : LET s == USegs[j] IN
  UProfiles[s[3]].gc \in {"nd", "nl", "no"} => Cardinality(UNumsOf(s[1], s[2])) = s[2] - s[1] + 1
\* what is above the last code point is as what is not assigned
ASSUME \E j \in 1..Len(UProfiles) : UProfiles[j] = UBeyond
=============================================================================
