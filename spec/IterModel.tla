------------------------------ MODULE IterModel ------------------------------
(* The result ranges over every possible matcher: M[p] is the end of the     *)
(* match found at position p, or None. (A matcher may depend on all of the   *)
(* subject, but not on how a search came to a position, so a table is all    *)
(* there is to it.) One behaviour walks one range from begin to end; the     *)
(* invariants are the statements of C11 (steps), C12, C13, C14.              *)
EXTENDS Iterate, FiniteSets, TLC

CONSTANT MaxN
None == -1

VARIABLES kind,   \* "all", "tokens", "split"
          n,      \* length of the subject
          M,      \* matcher
          st,     \* the iterator
          out,    \* results seen
          delims, \* split: delimiters used
          trail   \* the iterators seen, one behind the other

vars == <<kind, n, M, st, out, delims, trail>>

Tables(k) == {t \in [0..k -> -1..k] : \A p \in 0..k : t[p] = None \/ t[p] >= p}

Res(p, e) == <<<<p, e>>>>
At(p) == IF p > n \/ M[p] = None THEN <<>> ELSE Res(p, M[p])
RECURSIVE Leftmost(_)
Leftmost(p) == IF p > n THEN <<>> ELSE IF M[p] # None THEN Res(p, M[p]) ELSE Leftmost(p + 1)
Find(p) == IF kind = "tokens" THEN At(p) ELSE Leftmost(p)

Init ==
  /\ kind \in {"all", "tokens", "split"}
  /\ n \in 0..MaxN
  /\ M \in Tables(n)
  /\ st = IF kind = "split" THEN SplitBegin(Find, n, 0) ELSE AllBegin(Find)
  /\ out = <<>>
  /\ delims = <<>>
  /\ trail = <<st>>

AtEnd == st.res = <<>>
Span(r) == r[1]
\* the delimiter which a piece ended at
DelimOf(s) == <<End(s.res), s.cur>>

Deref ==
  /\ ~AtEnd /\ Len(out) < 2 * MaxN + 4
  /\ out' = Append(out, Span(st.res))
  /\ delims' = IF kind = "split" /\ ~st.last THEN Append(delims, DelimOf(st)) ELSE delims
  /\ st' = IF kind = "split" THEN SplitNext(Find, n, 0, st) ELSE AllNext(Find, n, st)
  /\ trail' = Append(trail, st')
  /\ UNCHANGED <<kind, n, M>>
Spec == Init /\ [][Deref]_vars /\ WF_vars(Deref)

\* --- C11 ----------------------------------------------------------------------
Ends == <>AtEnd
Steps == Len(out) <= n + 2

\* --- C23 ----------------------------------------------------------------------
\* iterators at different results differ, their places are in order, and what tells them apart is
\* what the library looks at: the place, the begin of the result, whether there is one, and the last flag
Key(s) == <<s.cur, s.res = <<>>, IF s.res = <<>> THEN 0 ELSE Beg(s.res), IF kind = "split" THEN s.last ELSE FALSE>>
Apart == \A i, j \in 1..Len(trail) : i < j => Key(trail[i]) # Key(trail[j])
Ordered == \A i \in 1..(Len(trail) - 1) : trail[i].cur <= trail[i + 1].cur
OneEnd == \A i \in 1..Len(trail) : trail[i].res = <<>> => i = Len(trail)

\* --- C12 ----------------------------------------------------------------------
InOrder(s) == \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][1] /\ s[i][1] < s[i + 1][1]
AllOf == kind = "all" =>
  /\ InOrder(out)
  /\ \A i \in 1..Len(out) : out[i][2] = M[out[i][1]]
  \* between two results (before the first one) there is no match which could have been given
  /\ \A i \in 1..Len(out) : LET from == IF i = 1 THEN 0
                                        ELSE out[i - 1][2] + (IF out[i - 1][1] = out[i - 1][2] THEN 1 ELSE 0)
                            IN \A p \in from..(out[i][1] - 1) : M[p] = None
  \* and none behind the last one, unless that reached the end of the subject
  /\ AtEnd => IF out = <<>> THEN \A p \in 0..n : M[p] = None
              ELSE LET z == out[Len(out)] from == z[2] + (IF z[1] = z[2] THEN 1 ELSE 0)
                   IN z[2] = n \/ \A p \in from..n : M[p] = None

\* --- C14 ----------------------------------------------------------------------
TokensOf == kind = "tokens" =>
  /\ \A i \in 1..Len(out) : out[i][2] = M[out[i][1]]
  /\ out # <<>> => out[1][1] = 0
  /\ \A i \in 1..(Len(out) - 1) : out[i + 1][1] = out[i][2] + (IF out[i][1] = out[i][2] THEN 1 ELSE 0)
  /\ AtEnd => IF out = <<>> THEN M[0] = None
              ELSE LET z == out[Len(out)] p == z[2] + (IF z[1] = z[2] THEN 1 ELSE 0)
                   IN z[2] = n \/ M[p] = None

\* --- C13 ----------------------------------------------------------------------
SplitOf == kind = "split" =>
  \* pieces and delimiters alternate and cover the subject without holes
  /\ \A i \in 1..Len(out) : out[i][1] = (IF i = 1 THEN 0 ELSE delims[i - 1][2])
  /\ \A i \in 1..Len(delims) : out[i][2] = delims[i][1] /\ M[delims[i][1]] = delims[i][2]
  /\ AtEnd => Len(out) = Len(delims) + 1 /\ out[Len(out)][2] = n
  \* a delimiter is the leftmost match behind the previous one
  /\ \A i \in 1..Len(delims) : LET from == IF i = 1 THEN 0
                                   ELSE delims[i - 1][2] + (IF delims[i - 1][1] = delims[i - 1][2] THEN 1 ELSE 0)
                               IN \A p \in from..(delims[i][1] - 1) : M[p] = None
  /\ AtEnd => LET from == IF delims = <<>> THEN 0
                          ELSE LET z == delims[Len(delims)] IN z[2] + (IF z[1] = z[2] THEN 1 ELSE 0)
              IN \A p \in from..n : M[p] = None
=============================================================================
