----------------------------- MODULE BoundsTrace -----------------------------
(* Recorded calls with what they did to the positions of the subject         *)
(* (harness/bounds.hpp): an event has, behind the result and the form,       *)
(*   touches   the different operations <<op, position, k>>                  *)
(*   history   the operations with the numbers of the iterators (or nothing, *)
(*             if it was not asked for), positions are followed here         *)
(*   m         how many iterators there were at the same time                *)
(* The result has to be the one of the specification whatever is around the  *)
(* subject, which is how it can not depend on anything there.                *)
EXTENDS Trace, Bounds

Size(ev) == Len(Rec.subj[ev[3] + 1])
Spans(ev) == IF ev[1] \in {"a", "t", "p"} THEN UNION {{r[i] : i \in 1..Len(r)} : r \in {ev[4][k] : k \in 1..Len(ev[4])}}
             ELSE {ev[4][i] : i \in 1..Len(ev[4])}
Touched(ev) == {ev[6][i] : i \in 1..Len(ev[6])}
Followed(ev) == FoldLeft(Do, Fresh(ev[8]), ev[7]).seen
Wrong(ev) == LET n == Size(ev) IN
  {<<"span", c>> : c \in {c \in Spans(ev) : ~IsSpan(n, c)}}
  \cup (IF Len(ev) < 8 THEN {}
        ELSE {<<"touch", t>> : t \in {t \in Touched(ev) : ~Legal(n, t[1], t[2], t[3])}}
             \cup (IF Len(ev[7]) = 0 THEN {}
                   ELSE LET f == Followed(ev) IN {<<"history", t>> : t \in {t \in f : ~Legal(n, t[1], t[2], t[3])}}
                        \cup (IF f # Touched(ev) THEN {<<"recorder", Cardinality(f)>>} ELSE {})))

Moving ==
  /\ phase = "calls"
  /\ LET ev == Rec.ev[l]
         w == Wrong(ev)
         fits == Allowed(ev)
         good == fits /\ w = {}
     IN /\ bad' = IF good THEN bad ELSE bad + 1
        /\ w # {} => Report("outside", ev, CHOOSE t \in w : TRUE)
        /\ (w = {} /\ ~fits) => Report("call", ev, In(Code(Subject(ev[3])), ev))
  /\ l' = l + 1
  /\ phase' = IF l = Len(Rec.ev) THEN "done" ELSE "calls"
  /\ UNCHANGED <<id, pat>>
NextMove == Load \/ Moving
MoveSpec == Init /\ [][NextMove]_vars
=============================================================================
