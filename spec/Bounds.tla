------------------------------- MODULE Bounds --------------------------------
(* What may be done with iterators of a subject with n units. Positions are  *)
(* 0 .. n; an iterator which was made out of nothing has none (Nil).         *)
EXTENDS Integers, Sequences, FiniteSets
Nil == -1000
Inc == 1        \* ++
Dec == 2        \* --
Jump == 3       \* += k
Read == 4       \* *
Index == 5      \* [k]
Same == 6       \* == and != with another iterator (at position k)
AtEnd == 7      \* == and != with an end of another type
Order == 8      \* differences, < and its like (other iterator at position k)
Born == 10      \* begin and end, as the caller gives them
Nothing == 11
Copy == 12

Inside(n, p) == p \in 0..n
Legal(n, op, p, k) ==
  CASE op = Inc -> p \in 0..(n - 1)
    [] op = Dec -> p \in 1..n
    [] op = Jump -> Inside(n, p) /\ Inside(n, p + k)
    [] op = Read -> p \in 0..(n - 1)
    [] op = Index -> Inside(n, p) /\ p + k \in 0..(n - 1)
    [] op = Same -> (Inside(n, p) /\ Inside(n, k)) \/ (p = Nil /\ k = Nil)
    [] op = AtEnd -> Inside(n, p)
    [] op = Order -> Inside(n, p) /\ Inside(n, k)
    [] OTHER -> FALSE
\* where an iterator is after an operation
After(op, p, k) == CASE op = Inc -> p + 1 [] op = Dec -> p - 1 [] op = Jump -> p + k [] OTHER -> p
\* two iterators are named
Pair(op) == op \in {Same, Order}

\* an operation h = <<op, iterator, other iterator or number>> of a history: the state is where every
\* iterator is, and the operations that were made
Fresh(m) == [at |-> [i \in 1..m |-> Nil], seen |-> {}]
Do(st, h) ==
  LET op == h[1] a == h[2] IN
  CASE op = Born -> [st EXCEPT !.at[a] = h[3]]
    [] op = Nothing -> [st EXCEPT !.at[a] = Nil]
    [] op = Copy -> [st EXCEPT !.at[a] = st.at[h[3]]]
    [] OTHER -> LET p == st.at[a] k == IF Pair(op) THEN st.at[h[3]] ELSE h[3]
                IN [at |-> [st.at EXCEPT ![a] = After(op, p, k)], seen |-> st.seen \cup {<<op, p, k>>}]
\* reported positions
IsSpan(n, c) == c = <<>> \/ (Len(c) = 2 /\ 0 <= c[1] /\ c[1] <= c[2] /\ c[2] <= n)
=============================================================================
