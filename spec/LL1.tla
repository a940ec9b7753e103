-------------------------------- MODULE LL1 --------------------------------
(* The engine of ctll: a grammar, its LL(1) table, and the pushdown machine   *)
(* driven by the table. Characters are 1..NC, 0 is the end of the input.      *)
(* A grammar is a sequence of nonterminals, each a sequence of alternatives,  *)
(* each a sequence of items: <<"t", set>>, <<"n", k>>, <<"x", action>>.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NC
Chars == 1..NC
SetOf(s) == {s[i] : i \in 1..Len(s)}
NTs(G) == 1..Len(G)
Alts(G) == UNION {{<<n, k>> : k \in 1..Len(G[n])} : n \in NTs(G)}

RECURSIVE Fix(_, _)
(* nullable nonterminals *)
NullStep(G, S) == {n \in NTs(G) : \E k \in 1..Len(G[n]) : \A i \in 1..Len(G[n][k]) :
    G[n][k][i][1] = "x" \/ (G[n][k][i][1] = "n" /\ G[n][k][i][2] \in S)}
(* nonterminals having a word *)
ProdStep(G, S) == {n \in NTs(G) : \E k \in 1..Len(G[n]) : \A i \in 1..Len(G[n][k]) :
    G[n][k][i][1] /= "n" \/ G[n][k][i][2] \in S}
(* nonterminals met from the first one *)
ReachStep(G, S) == {1} \cup S \cup {m \in NTs(G) : \E a \in Alts(G) : a[1] \in S /\
    \E i \in 1..Len(G[a[1]][a[2]]) : G[a[1]][a[2]][i] = <<"n", m>>}
Step(w, G, S) == CASE w = "null" -> NullStep(G, S) [] w = "prod" -> ProdStep(G, S) [] w = "reach" -> ReachStep(G, S)
Fix(a, S) == LET N == Step(a[1], a[2], S) IN IF N = S THEN S ELSE Fix(a, N)
Nullable(G) == Fix(<<"null", G>>, {})
Useful(G) == Fix(<<"prod", G>>, {}) = NTs(G) /\ Fix(<<"reach", G>>, {1}) = NTs(G)

(* what a sequence of items may begin with, the firsts F of the nonterminals given *)
RECURSIVE FirstOf(_, _, _, _)
FirstOf(Nu, F, items, i) == IF i > Len(items) THEN {}
  ELSE LET x == items[i] IN
       CASE x[1] = "t" -> SetOf(x[2])
         [] x[1] = "x" -> FirstOf(Nu, F, items, i + 1)
         [] x[1] = "n" -> F[x[2]] \cup IF x[2] \in Nu THEN FirstOf(Nu, F, items, i + 1) ELSE {}
NullSeq(Nu, items, i) == \A j \in i..Len(items) : items[j][1] = "x" \/ (items[j][1] = "n" /\ items[j][2] \in Nu)
RECURSIVE FirstFix(_, _, _)
FirstFix(G, Nu, F) ==
  LET N == [n \in NTs(G) |-> UNION {FirstOf(Nu, F, G[n][k], 1) : k \in 1..Len(G[n])}] IN
  IF N = F THEN F ELSE FirstFix(G, Nu, N)
RECURSIVE FollowFix(_, _, _, _)
FollowFix(G, Nu, F, W) ==
  LET N == [n \in NTs(G) |-> W[n] \cup UNION {UNION {
             IF G[a[1]][a[2]][i] = <<"n", n>>
             THEN FirstOf(Nu, F, G[a[1]][a[2]], i + 1) \cup IF NullSeq(Nu, G[a[1]][a[2]], i + 1) THEN W[a[1]] ELSE {}
             ELSE {} : i \in 1..Len(G[a[1]][a[2]])} : a \in Alts(G)}] IN
  IF N = W THEN W ELSE FollowFix(G, Nu, F, N)
(* the characters (0: the end) on which every alternative is taken *)
Predict(G) ==
  LET Nu == Nullable(G)
      F == FirstFix(G, Nu, [n \in NTs(G) |-> {}])
      W == FollowFix(G, Nu, F, [n \in NTs(G) |-> IF n = 1 THEN {0} ELSE {}]) IN
  [n \in NTs(G) |-> [k \in 1..Len(G[n]) |-> FirstOf(Nu, F, G[n][k], 1) \cup IF NullSeq(Nu, G[n][k], 1) THEN W[n] ELSE {}]]
Disjoint(P) == \A n \in DOMAIN P : \A j, k \in DOMAIN P[n] : j /= k => P[n][j] \cap P[n][k] = {}
Table(P) == [n \in DOMAIN P |-> [c \in 0..NC |-> LET K == {k \in DOMAIN P[n] : c \in P[n][k]} IN
                                             IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE]]
IsLL1(G) == Useful(G) /\ Disjoint(Predict(G))

(* actions 1..3 note themselves with the character before; 4 does so too, and *)
(* refuses to stand behind character 2; 5 is not known to the selector        *)
Refuses(a, prev) == a = 4 /\ prev = 2
Noted(log, a, prev) == IF a = 5 THEN log ELSE Append(log, <<a, prev>>)
At(w, i) == IF i \in 1..Len(w) THEN w[i] ELSE 0

(* a configuration: <<position, stack, log, decision>> *)
Start == <<0, <<<<"n", 1>>>>, <<>>, "run">>
Moved(G, T, w, m) ==
  LET c == At(w, m[1] + 1) IN
  IF m[2] = <<>> THEN <<m[1], <<>>, m[3], IF c = 0 THEN "accept" ELSE "reject">>
  ELSE LET x == Head(m[2]) S == Tail(m[2]) no == <<m[1], <<>>, m[3], "reject">> IN
    CASE x[1] = "x" -> IF Refuses(x[2], At(w, m[1])) THEN no ELSE <<m[1], S, Noted(m[3], x[2], At(w, m[1])), "run">>
      [] x[1] = "n" -> IF T[x[2]][c] = 0 THEN no ELSE <<m[1], G[x[2]][T[x[2]][c]] \o S, m[3], "run">>
      [] x[1] = "t" -> IF c \in SetOf(x[2]) THEN <<m[1] + 1, S, m[3], "run">> ELSE no

(* the grammar as it is meant, without tables: every derivation is tried.     *)
(* <<how far, log>> of the complete ones, and the farthest place any reaches  *)
RECURSIVE Parses(_, _, _, _, _), Reach(_, _, _, _)
Parses(G, items, w, i, log) ==
  IF items = <<>> THEN IF i = Len(w) THEN {log} ELSE {}
  ELSE LET x == Head(items) IN
    CASE x[1] = "x" -> IF Refuses(x[2], At(w, i)) THEN {} ELSE Parses(G, Tail(items), w, i, Noted(log, x[2], At(w, i)))
      [] x[1] = "t" -> IF At(w, i + 1) \in SetOf(x[2]) THEN Parses(G, Tail(items), w, i + 1, log) ELSE {}
      [] x[1] = "n" -> UNION {Parses(G, G[x[2]][k] \o Tail(items), w, i, log) : k \in 1..Len(G[x[2]])}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Reach(G, items, w, i) ==
  IF items = <<>> THEN i
  ELSE LET x == Head(items) IN
    CASE x[1] = "x" -> IF Refuses(x[2], At(w, i)) THEN i ELSE Reach(G, Tail(items), w, i)
      [] x[1] = "t" -> IF At(w, i + 1) \in SetOf(x[2]) THEN Reach(G, Tail(items), w, i + 1) ELSE i
      [] x[1] = "n" -> Max({Reach(G, G[x[2]][k] \o Tail(items), w, i) : k \in 1..Len(G[x[2]])})
=============================================================================
