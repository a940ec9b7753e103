----------------------------- MODULE FilterModel -----------------------------
(* A range of subjects filtered by an expression: hit[i] says whether the    *)
(* expression succeeds on subject i (0-based). All patterns of hits are      *)
(* explored; one behaviour walks the filtered range from begin to end.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT MaxN
VARIABLES n, hit, cur, out
vars == <<n, hit, cur, out>>

RECURSIVE NextHit(_)
NextHit(i) == IF i >= n THEN n ELSE IF hit[i] THEN i ELSE NextHit(i + 1)

Init == /\ n \in 0..MaxN
        /\ hit \in [0..(n - 1) -> BOOLEAN]
        /\ cur = NextHit(0)
        /\ out = <<>>
AtEnd == cur = n
Step == /\ ~AtEnd
        /\ out' = Append(out, cur)
        /\ cur' = NextHit(cur + 1)
        /\ UNCHANGED <<n, hit>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Hits == {i \in 0..(n - 1) : hit[i]}
\* in the order of the range, only hits, none left out
Order == /\ \A i \in 1..(Len(out) - 1) : out[i] < out[i + 1]
         /\ \A i \in 1..Len(out) : hit[out[i]]
         /\ \A i \in Hits : i < cur => \E k \in 1..Len(out) : out[k] = i
\* the end is reached exactly when no further hit is left
Ends == AtEnd <=> (\A i \in Hits : \E k \in 1..Len(out) : out[k] = i)
Agree == AtEnd => Len(out) = Cardinality(Hits)
Finishes == <>AtEnd
=============================================================================
