------------------------------ MODULE Iterate -------------------------------
(* The result ranges as state machines over an abstract matcher:             *)
(* Find(p) is the result of looking for a match from position p on (for      *)
(* tokenize: at position p), <<>> if there is none.                          *)
EXTENDS Integers, Sequences

Beg(r) == r[1][1]
End(r) == r[1][2]

\* --- search_all and tokenize: st = [cur, res], the range ends when res = <<>>
AllBegin(Find(_)) == LET r == Find(0) IN [cur |-> IF r = <<>> THEN 0 ELSE End(r), res |-> r]
AllNext(Find(_), n, st) ==
  IF st.cur = n THEN [st EXCEPT !.res = <<>>]
  ELSE LET from == IF Beg(st.res) = End(st.res) THEN st.cur + 1 ELSE st.cur
           r == Find(from)
       IN [cur |-> IF r = <<>> THEN from ELSE End(r), res |-> r]

RECURSIVE AllRun(_, _, _, _)
AllRun(Find(_), n, st, acc) ==
  IF st.res = <<>> THEN acc ELSE AllRun(Find, n, AllNext(Find, n, st), Append(acc, st.res))
All(Find(_), n) == AllRun(Find, n, AllBegin(Find), <<>>)

\* --- split: st = [cur, res, last, empty]; res is a piece with the captures of its delimiter
Piece(b, e, caps) == <<<<b, e>>>> \o caps
Rest(cur, n, ncap) == [cur |-> n, res |-> Piece(cur, n, [i \in 1..ncap |-> <<>>]), last |-> TRUE, empty |-> FALSE]
Cut(cur, r) == [cur |-> End(r), res |-> Piece(cur, Beg(r), Tail(r)), last |-> FALSE, empty |-> Beg(r) = End(r)]
SplitStep(Find(_), n, ncap, cur, from) ==
  LET r == IF from > n THEN <<>> ELSE Find(from)
  IN IF r = <<>> THEN Rest(cur, n, ncap) ELSE Cut(cur, r)

SplitBegin(Find(_), n, ncap) == SplitStep(Find, n, ncap, 0, 0)
SplitNext(Find(_), n, ncap, st) ==
  IF st.last THEN [st EXCEPT !.res = <<>>]
  ELSE SplitStep(Find, n, ncap, st.cur, IF st.empty THEN st.cur + 1 ELSE st.cur)

RECURSIVE SplitRun(_, _, _, _, _)
SplitRun(Find(_), n, ncap, st, acc) ==
  IF st.res = <<>> THEN acc ELSE SplitRun(Find, n, ncap, SplitNext(Find, n, ncap, st), Append(acc, st.res))
Split(Find(_), n, ncap) == SplitRun(Find, n, ncap, SplitBegin(Find, n, ncap), <<>>)
=============================================================================
