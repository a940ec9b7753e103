------------------------------- MODULE Match --------------------------------
(* Meaning of syntax trees: ordered backtracking semantics as an ordered     *)
(* list of successes. Ways(c, x, s) is the sequence of the states in which   *)
(* x can be left when it is entered in state s, most preferred first and     *)
(* without repetitions. A state is [p, caps, ci, ml]: position (0-based),    *)
(* captures (<<>> not matched, or <<begin, end>>), case-insensitive mode,    *)
(* multiline mode.                                                           *)
(*                                                                           *)
(* c is the context [S, n, atomic, leak]: subject, its length, and the two   *)
(* known deviations of the implementation from this semantics (see           *)
(* KNOWN_FINDINGS in the repository of the checks):                          *)
(*   atomic - a loop iteration commits to the first way its body matches     *)
(*   leak   - an inline mode switch stays on behind the end of its group     *)
EXTENDS Parser, SequencesExt

Ctx(S, atomic, leak) == [S |-> S, n |-> Len(S), atomic |-> atomic, leak |-> leak]
Code(S) == Ctx(S, TRUE, TRUE)          \* what the implementation does
Ideal(S) == Ctx(S, FALSE, FALSE)       \* without the deviations

Start(p, ngroups, ci, ml) == [p |-> p, caps |-> [i \in 1..ngroups |-> <<>>], ci |-> ci, ml |-> ml]

Dedup(w) == IF Len(w) <= 1 \/ Cardinality({w[i] : i \in 1..Len(w)}) = Len(w) THEN w
            ELSE FoldLeft(LAMBDA acc, s : IF \E i \in 1..Len(acc) : acc[i] = s THEN acc ELSE Append(acc, s), <<>>, w)
First(w) == IF w = <<>> THEN <<>> ELSE <<w[1]>>
Modes(s, t) == [s EXCEPT !.ci = t.ci, !.ml = t.ml]        \* s with the modes of t

WordAt(c, p) == p >= 0 /\ p < c.n /\ IsWord(c.S[p + 1])
Boundary(c, p) == WordAt(c, p - 1) # WordAt(c, p)

AssertHolds(c, x, s) ==
  CASE x.t = "bos" -> s.p = 0
    [] x.t = "eos" -> s.p = c.n
    [] x.t = "bol" -> s.p = 0 \/ (s.ml /\ c.S[s.p] = LF)
    [] x.t = "eol" -> s.p = c.n \/ (s.ml /\ c.S[s.p + 1] = LF)
    [] x.t = "eosl" -> s.p = c.n \/ (s.ml /\ s.p = c.n - 1 /\ c.S[s.p + 1] = LF)
    [] x.t = "wb" -> Boundary(c, s.p) # x.n

SwitchMode(s, m) == CASE m = "i" -> [s EXCEPT !.ci = TRUE]  [] m = "c" -> [s EXCEPT !.ci = FALSE]
                      [] m = "m" -> [s EXCEPT !.ml = TRUE]  [] m = "s" -> [s EXCEPT !.ml = FALSE]

SameText(c, s, b, e) ==
  /\ s.p + (e - b) <= c.n
  /\ \A k \in 1..(e - b) : LET u == c.S[b + k] v == c.S[s.p + k]
                           IN u = v \/ (s.ci /\ SameLetter(u, v))

RECURSIVE Ways(_, _, _), WaysSeq(_, _, _, _), More(_, _, _, _), Need(_, _, _, _)

\* one iteration of a loop body; modes set inside do not leave it
Iterate(c, x, s, mayBeEmpty) ==
  LET w == Ways(c, x.x, s)
      v == IF mayBeEmpty THEN w ELSE SelectSeq(w, LAMBDA t : t.p # s.p)
      u == IF c.atomic THEN First(v) ELSE v
  IN [i \in 1..Len(u) |-> Modes(u[i], s)]

\* k iterations done, at least the minimum
More(c, x, s, k) ==
  IF x.b # Inf /\ k >= x.b THEN <<s>>
  ELSE LET it == Iterate(c, x, s, FALSE)
           on == FlattenSeq([i \in 1..Len(it) |-> More(c, x, it[i], k + 1)])
       IN Dedup(IF x.m = "l" THEN <<s>> \o on ELSE on \o <<s>>)

\* the required iterations; each of them may be empty
Need(c, x, s, k) ==
  IF k >= x.a THEN More(c, x, s, k)
  ELSE LET it == Iterate(c, x, s, TRUE)
       IN Dedup(FlattenSeq([i \in 1..Len(it) |-> Need(c, x, it[i], k + 1)]))

WaysSeq(c, xs, i, s) ==
  IF i > Len(xs) THEN <<s>>
  ELSE LET w == Ways(c, xs[i], s) IN
       IF w = <<>> THEN <<>>
       ELSE IF Len(w) = 1 THEN WaysSeq(c, xs, i + 1, w[1])
       ELSE Dedup(FlattenSeq([k \in 1..Len(w) |-> WaysSeq(c, xs, i + 1, w[k])]))

Scoped(c, w, s) == IF c.leak THEN w ELSE Dedup([i \in 1..Len(w) |-> Modes(w[i], s)])

\* captures of the most preferred way only, position and modes unchanged
LookAhead(c, x, s) == Ways(c, x, s)
\* x matches some text which ends at s.p
LookBehind(c, x, s) ==
  LET from(j) == SelectSeq(Ways(c, x, [s EXCEPT !.p = j]), LAMBDA t : t.p = s.p)
      hits == {j \in 0..s.p : from(j) # <<>>}
  IN IF hits = {} THEN <<>> ELSE from(CHOOSE j \in hits : \A i \in hits : i <= j)

Ways(c, x, s) ==
  CASE x.t = "eps" -> <<s>>
    [] x.t \in {"c", "r", "cls", "prop", "set"} ->
         IF s.p < c.n /\ Accepts(x, c.S[s.p + 1], s.ci) THEN <<[s EXCEPT !.p = @ + 1]>> ELSE <<>>
    [] x.t = "any" ->
         IF s.p < c.n /\ ~(s.ml /\ c.S[s.p + 1] = LF) THEN <<[s EXCEPT !.p = @ + 1]>> ELSE <<>>
    [] x.t = "seq" -> WaysSeq(c, x.xs, 1, s)
    [] x.t = "alt" -> Dedup(FlattenSeq([i \in 1..Len(x.xs) |-> Ways(c, x.xs[i], s)]))
    [] x.t = "grp" -> Scoped(c, Ways(c, x.x, s), s)
    [] x.t = "cap" ->
         LET w == Ways(c, x.x, s)
         IN Scoped(c, Dedup([i \in 1..Len(w) |-> [w[i] EXCEPT !.caps[x.i] = <<s.p, w[i].p>>]]), s)
    [] x.t = "rep" ->
         IF x.b # Inf /\ x.a > x.b THEN <<>>
         ELSE IF x.m = "p" THEN First(Need(c, x, s, 0)) ELSE Need(c, x, s, 0)
    [] x.t = "atom" -> LET w == First(Ways(c, x.x, s)) IN [i \in 1..Len(w) |-> Modes(w[i], s)]
    [] x.t = "look" ->
         LET w == IF x.d = "a" THEN LookAhead(c, x.x, s) ELSE LookBehind(c, x.x, s)
         IN IF x.n THEN (IF w = <<>> THEN <<s>> ELSE <<>>)
            ELSE IF w = <<>> THEN <<>> ELSE <<[s EXCEPT !.caps = w[1].caps]>>
    [] x.t \in {"bos", "eos", "bol", "eol", "eosl", "wb"} -> IF AssertHolds(c, x, s) THEN <<s>> ELSE <<>>
    [] x.t = "mode" -> <<FoldLeft(SwitchMode, s, x.v)>>
    [] x.t = "bref" ->
         IF x.i < 1 \/ x.i > Len(s.caps) THEN <<>>
         ELSE LET r == s.caps[x.i] IN
              IF r # <<>> /\ SameText(c, s, r[1], r[2]) THEN <<[s EXCEPT !.p = @ + (r[2] - r[1])]>> ELSE <<>>

\* --- results of the calls -------------------------------------------------
\* a result is <<>> (no match) or the sequence of captures, capture 0 first
Result(b, t) == <<<<b, t.p>>>> \o t.caps
NoMatch == <<>>

\* pat = [x, nc]; o = [ci, ml]
MatchAt(c, pat, o, p) ==
  LET w == Ways(c, pat.x, Start(p, pat.nc, o.ci, o.ml))
  IN IF w = <<>> THEN NoMatch ELSE Result(p, w[1])

WholeMatch(c, pat, o) ==
  LET w == SelectSeq(Ways(c, pat.x, Start(0, pat.nc, o.ci, o.ml)), LAMBDA t : t.p = c.n)
  IN IF w = <<>> THEN NoMatch ELSE Result(0, w[1])

RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(c, pat, o, p) ==
  LET r == MatchAt(c, pat, o, p)
  IN IF r # NoMatch \/ p >= c.n THEN r ELSE SearchFrom(c, pat, o, p + 1)
=============================================================================
