--------------------------------- MODULE Gen ---------------------------------
(* Generation of patterns: a state is a pattern, as text and as the syntax   *)
(* tree it is meant to have; every action builds a larger pattern from a     *)
(* smaller one. TLC enumerates all of them up to the given size, checks      *)
(* the laws below on each (what the listed properties say about the          *)
(* semantics, for all words up to MaxLen), and emits the texts, which are    *)
(* then compiled and run with the real library.                              *)
(*                                                                           *)
(* The building blocks come from the environment (GEN, a JSON file):         *)
(*   leaves: texts of atoms; quants: texts of quantifiers;                   *)
(*   wraps: texts "(", "(?:", "(?>", "(?=", "(?!", "(?<=", "(?<!", "(?<n>"   *)
(*   binary: subset of "seq", "alt"; size: bound on the number of actions    *)
(*   words: alphabet (code points), maxlen; emit: 1 to print the patterns    *)
EXTENDS Match, TLC, Json, IOUtils

ASSUME "GEN" \in DOMAIN IOEnv
P == JsonDeserialize(IOEnv.GEN)
Range1(s) == {s[i] : i \in 1..Len(s)}
Leaves == P.leaves
Quants == P.quants
Wraps == P.wraps
Binary == Range1(P.binary)
Words == UNION {[1..k -> Range1(P.words)] : k \in 0..P.maxlen}

\* the tree of a leaf, of a quantifier applied to a tree: taken from the parser, on a text where
\* nothing else is around
LeafTree(i) == LET t == Leaves[i] IN
  IF Len(t) = 2 /\ t[1] = BSLASH /\ t[2] >= 49 /\ t[2] <= 57 THEN [t |-> "bref", i |-> t[2] - 48] ELSE Parse(t).x
LeafCaps(i) == Parse(Leaves[i]).nc
QuantTree(q, x) == LET r == Parse(<<97>> \o q).x IN [r EXCEPT !.x = x]

RECURSIVE Shift(_, _)
\* group numbers moved by d (back references name numbers in the text and stay)
Shift(x, d) ==
  CASE x.t = "cap" -> [x EXCEPT !.i = @ + d, !.x = Shift(x.x, d)]
    [] x.t \in {"seq", "alt"} -> [x EXCEPT !.xs = [i \in 1..Len(x.xs) |-> Shift(x.xs[i], d)]]
    [] x.t \in {"rep", "grp", "atom", "look"} -> [x EXCEPT !.x = Shift(x.x, d)]
    [] OTHER -> x

VARIABLES txt, x, nc, kind, size
vars == <<txt, x, nc, kind, size>>

Grp(t) == <<LPAR, QMARK, COLON>> \o t \o <<RPAR>>
AsItem(t, k) == IF k = "alt" THEN Grp(t) ELSE t            \* inside a sequence
AsAtom(t, k) == IF k \in {"atom", "assert"} THEN t ELSE Grp(t)
Seq2(a, b) == [t |-> "seq", xs |-> <<a, b>>]
Alt2(a, b) == [t |-> "alt", xs |-> <<a, b>>]

Init == \E i \in 1..Len(Leaves) :
  txt = Leaves[i] /\ x = LeafTree(i) /\ nc = LeafCaps(i) /\ kind = "atom" /\ size = 1

Then(i) ==
  /\ "seq" \in Binary
  /\ txt' = AsItem(txt, kind) \o Leaves[i] /\ x' = Seq2(x, Shift(LeafTree(i), nc)) /\ nc' = nc + LeafCaps(i) /\ kind' = "seq"
Before(i) ==
  /\ "seq" \in Binary
  /\ txt' = Leaves[i] \o AsItem(txt, kind) /\ x' = Seq2(LeafTree(i), Shift(x, LeafCaps(i))) /\ nc' = nc + LeafCaps(i) /\ kind' = "seq"
Or(i) ==
  /\ "alt" \in Binary
  /\ txt' = txt \o <<PIPE>> \o Leaves[i] /\ x' = Alt2(x, Shift(LeafTree(i), nc)) /\ nc' = nc + LeafCaps(i) /\ kind' = "alt"
OrBefore(i) ==
  /\ "alt" \in Binary
  /\ txt' = Leaves[i] \o <<PIPE>> \o txt /\ x' = Alt2(LeafTree(i), Shift(x, LeafCaps(i))) /\ nc' = nc + LeafCaps(i) /\ kind' = "alt"
AddQuantifier(i) ==
  /\ x.t # "rep"                    \* an optional of an optional is another construct (see Parser)
  /\ txt' = AsAtom(txt, kind) \o Quants[i]
  /\ x' = QuantTree(Quants[i], x) /\ nc' = nc /\ kind' = "rep"
Wrap(i) ==
  LET w == Wraps[i] cap == Len(w) = 1 \/ (Len(w) > 3 /\ w[3] = LESS /\ IsNameStart(w[4]))
      y == Shift(x, 1)
  IN
  /\ txt' = w \o txt \o <<RPAR>> /\ kind' = "atom"
  /\ nc' = IF cap THEN nc + 1 ELSE nc
  /\ x' = IF cap THEN [t |-> "cap", i |-> 1, x |-> y]
          ELSE CASE w[3] = COLON -> [t |-> "grp", x |-> x]
                 [] w[3] = GREATER -> [t |-> "atom", x |-> x]
                 [] w[3] = EQUALS -> [t |-> "look", d |-> "a", n |-> FALSE, x |-> x]
                 [] w[3] = BANG -> [t |-> "look", d |-> "a", n |-> TRUE, x |-> x]
                 [] w[4] = EQUALS -> [t |-> "look", d |-> "b", n |-> FALSE, x |-> x]
                 [] w[4] = BANG -> [t |-> "look", d |-> "b", n |-> TRUE, x |-> x]

Next ==
  /\ size < P.size /\ size' = size + 1
  /\ \/ \E i \in 1..Len(Leaves) : Then(i) \/ Before(i) \/ Or(i) \/ OrBefore(i)
     \/ \E i \in 1..Len(Quants) : AddQuantifier(i)
     \/ \E i \in 1..Len(Wraps) : Wrap(i)
Spec == Init /\ [][Next]_vars

\* two derivations of one text are one state
View == txt

\* --- the laws --------------------------------------------------------------------
Parsed == Parse(txt)
Accepted == LET r == Parsed IN r.ok /\ RefsExist(r.x, r.names)
Tree == Resolve(x, Parsed.names)
Whole == Resolve(Parsed.x, Parsed.names)
Pat == [x |-> Whole, nc |-> nc]
Plain == [ci |-> FALSE, ml |-> FALSE]
ForAll(f(_, _)) == Accepted => \A S \in Words : \A p \in 0..Len(S) : f(S, p)
St(p) == Start(p, nc, FALSE, FALSE)
W(S, y, p) == Ways(Ideal(S), y, St(p))
Ends(w) == [i \in 1..Len(w) |-> w[i].p]
EndSet(w) == {w[i].p : i \in 1..Len(w)}

RECURSIVE RefsOf(_), HasKind(_, _)
RefsOf(y) == CASE y.t = "bref" -> {y.i}
               [] y.t \in {"seq", "alt"} -> UNION {RefsOf(y.xs[i]) : i \in 1..Len(y.xs)}
               [] y.t \in {"rep", "cap", "grp", "atom", "look"} -> RefsOf(y.x)
               [] OTHER -> {}
HasKind(y, ks) == \/ y.t \in ks
                  \/ y.t \in {"seq", "alt"} /\ \E i \in 1..Len(y.xs) : HasKind(y.xs[i], ks)
                  \/ y.t \in {"rep", "cap", "grp", "atom", "look"} /\ HasKind(y.x, ks)

\* C10: the text is read with the structure it was written with
ReadAsWritten == ForAll(LAMBDA S, p : W(S, Whole, p) = W(S, Tree, p)) /\ (Accepted => Parsed.nc = nc)
\* without references every generated text is a sentence
GeneratedIsAccepted == (~HasKind(x, {"bref", "nref"})) => Accepted

\* C01/C11: finitely many ways, no two alike, all of them inside of the subject, none goes backwards
WaysAreDistinct == ForAll(LAMBDA S, p : LET w == W(S, Whole, p) IN
  /\ \A i, j \in 1..Len(w) : i # j => w[i] # w[j]
  /\ \A i \in 1..Len(w) : p <= w[i].p /\ w[i].p <= Len(S))

\* C02: leftmost; the three calls agree
SearchIsLeftmost == Accepted => \A S \in Words :
  LET at(p) == MatchAt(Ideal(S), Pat, Plain, p)
      r == SearchFrom(Ideal(S), Pat, Plain, 0)
      hits == {p \in 0..Len(S) : at(p) # NoMatch}
  IN /\ (r = NoMatch) = (hits = {})
     /\ hits # {} => r = at(CHOOSE p \in hits : \A q \in hits : p <= q)
     /\ WholeMatch(Ideal(S), Pat, Plain) # NoMatch => at(0) # NoMatch
     /\ at(0) # NoMatch => r = at(0)

\* C03: captures are spans inside of the match (of the subject with lookarounds); a group which is
\* in one alternative only is not matched on a path through the other one
CapturesInside == ForAll(LAMBDA S, p : LET w == W(S, Whole, p) IN
  \A i \in 1..Len(w) : \A g \in 1..nc : LET c == w[i].caps[g] IN
    c # <<>> => /\ 0 <= c[1] /\ c[1] <= c[2] /\ c[2] <= Len(S)
                /\ ~HasKind(Whole, {"look"}) => p <= c[1] /\ c[2] <= w[i].p)
CaptureIsTheText == ForAll(LAMBDA S, p :
  LET y == [t |-> "cap", i |-> 1, x |-> Shift(Whole, 1)]
      w == Ways(Ideal(S), y, Start(p, nc + 1, FALSE, FALSE))
  IN (RefsOf(Whole) = {}) => \A i \in 1..Len(w) : w[i].caps[1] = <<p, w[i].p>>)

\* C04: for the counts 0..3 copies of the tree written out, against the repeat of it
Copies(y, k) == IF k = 0 THEN Eps ELSE [t |-> "seq", xs |-> [i \in 1..k |-> y]]
Rep(m, a, b, y) == [t |-> "rep", m |-> m, a |-> a, b |-> b, x |-> y, single |-> TRUE]
CountsOfRepeats == RefsOf(Whole) = {} /\ ~HasKind(Whole, {"mode"}) => ForAll(LAMBDA S, p :
  \A a \in 0..2 : \A b \in a..2 :
    LET w(m) == W(S, Rep(m, a, b, Whole), p)
        ref == UNION {EndSet(W(S, Copies(Whole, k), p)) : k \in a..b}
    IN /\ EndSet(w("g")) = ref                   \* exactly the counts allowed
       /\ EndSet(w("l")) = ref
       /\ w("p") = First(w("g"))                 \* one way only, the greedy one
       /\ W(S, [t |-> "atom", x |-> Whole], p) = First(W(S, Whole, p)))
\* greedy prefers one more iteration, lazy none more, when the body is a single character
GreedyAndLazyOrder == ForAll(LAMBDA S, p :
  Whole.t \in {"c", "r", "cls", "prop", "set", "any"} =>
    LET g == Ends(W(S, Rep("g", 0, Inf, Whole), p)) l == Ends(W(S, Rep("l", 0, Inf, Whole), p))
    IN /\ \A i \in 1..(Len(g) - 1) : g[i] > g[i + 1]
       /\ \A i \in 1..(Len(l) - 1) : l[i] < l[i + 1]
       /\ Len(g) = Len(l) /\ g[Len(g)] = p /\ l[1] = p)

\* C05: behind a group, a reference to it consumes a copy of the group's text
ReferenceIsCopy == RefsOf(Whole) = {} => ForAll(LAMBDA S, p :
  LET y == Seq2([t |-> "cap", i |-> 1, x |-> Shift(Whole, 1)], [t |-> "bref", i |-> 1])
      w == Ways(Ideal(S), y, Start(p, nc + 1, FALSE, FALSE))
  IN \A i \in 1..Len(w) : LET c == w[i].caps[1] IN
       /\ w[i].p - c[2] = c[2] - c[1]
       /\ SubSeq(S, c[1] + 1, c[2]) = SubSeq(S, c[2] + 1, w[i].p))

\* C06
Look(d, n, y) == [t |-> "look", d |-> d, n |-> n, x |-> y]
LookaroundsAreTests == ForAll(LAMBDA S, p :
  LET here == W(S, Whole, p) # <<>>
      behind == \E j \in 0..p : p \in EndSet(W(S, Whole, j))
  IN /\ Ends(W(S, Look("a", FALSE, Whole), p)) = (IF here THEN <<p>> ELSE <<>>)
     /\ Ends(W(S, Look("b", FALSE, Whole), p)) = (IF behind THEN <<p>> ELSE <<>>)
     /\ W(S, Look("a", TRUE, Whole), p) = (IF here THEN <<>> ELSE <<St(p)>>)
     /\ W(S, Look("b", TRUE, Whole), p) = (IF behind THEN <<>> ELSE <<St(p)>>))

\* C07: where a lone assertion holds (in both line modes), said without positions of a matcher
AssertionsHold == Whole.t \in {"bos", "eos", "bol", "eol", "eosl", "wb", "any"} => \A ml \in BOOLEAN : \A S \in Words :
  LET n == Len(S)
      at(p) == Ways(Ideal(S), Whole, Start(p, nc, FALSE, ml)) # <<>>
      before(p) == SubSeq(S, 1, p) after(p) == SubSeq(S, p + 1, n)
      WordEnd(t) == t # <<>> /\ IsWord(t[Len(t)]) WordStart(t) == t # <<>> /\ IsWord(t[1])
  IN \A p \in 0..n :
     CASE Whole.t = "bos" -> at(p) = (before(p) = <<>>)
       [] Whole.t = "eos" -> at(p) = (after(p) = <<>>)
       [] Whole.t = "bol" -> at(p) = (before(p) = <<>> \/ (ml /\ before(p)[p] = LF))
       [] Whole.t = "eol" -> at(p) = (after(p) = <<>> \/ (ml /\ Head(after(p)) = LF))
       [] Whole.t = "eosl" -> at(p) = (after(p) = <<>> \/ (ml /\ after(p) = <<LF>>))
       [] Whole.t = "wb" -> at(p) = ((WordEnd(before(p)) # WordStart(after(p))) # Whole.n)
       [] Whole.t = "any" -> at(p) = (after(p) # <<>> /\ ~(ml /\ Head(after(p)) = LF))

\* C09: in the case-insensitive mode the case of the subject does not matter
Swap(S) == [i \in 1..Len(S) |-> OtherCase(S[i])]
CaseDoesNotMatter == ~HasKind(Whole, {"mode"}) => ForAll(LAMBDA S, p :
  LET s == Start(p, nc, TRUE, FALSE) IN Ways(Ideal(S), Whole, s) = Ways(Ideal(Swap(S)), Whole, s))

\* C22: equivalent patterns
EquivalentPatterns == ForAll(LAMBDA S, p :
  LET w == W(S, Whole, p) Same(y) == W(S, y, p) = w IN
  /\ Same([t |-> "grp", x |-> Whole]) \/ HasKind(Whole, {"mode"})
  /\ Same(Alt2(Whole, Whole))
  /\ Same(Seq2(Whole, Eps)) /\ Same(Seq2(Eps, Whole))
  /\ Same(Rep("g", 1, 1, Whole)) \/ HasKind(Whole, {"mode"})
  /\ nc = 0 /\ RefsOf(Whole) = {} /\ ~HasKind(Whole, {"mode"}) =>
       /\ W(S, Rep("g", 2, 2, Whole), p) = W(S, Seq2(Whole, Whole), p)
       /\ EndSet(W(S, Rep("g", 0, 1, Whole), p)) = EndSet(W(S, Alt2(Whole, Eps), p)))

\* a law about search: a subject is searched at every position whatever the pattern begins with
\* C25: what a composed expression does is what its parts do, one after the other or else
Composes == (RefsOf(Whole) = {} /\ ~HasKind(x, {"mode"})) =>
  \A i \in 1..Len(Leaves) : LeafCaps(i) = 0 /\ ~HasKind(LeafTree(i), {"bref", "mode"}) =>
    LET l == LeafTree(i)
        y == Whole
        text == <<Grp(txt) \o Grp(Leaves[i]), Grp(Leaves[i]) \o Grp(txt), Grp(txt) \o <<PIPE>> \o Grp(Leaves[i]), Grp(Leaves[i]) \o <<PIPE>> \o Grp(txt)>>
        tree == TLCEval([k \in 1..4 |-> Parse(text[k]).x])
    IN ForAll(LAMBDA S, p :
         LET w == W(S, y, p)
             v == W(S, l, p)
         IN /\ W(S, tree[1], p) = Dedup(FlattenSeq([k \in 1..Len(w) |-> Ways(Ideal(S), l, w[k])]))
            /\ W(S, tree[2], p) = Dedup(FlattenSeq([k \in 1..Len(v) |-> Ways(Ideal(S), y, v[k])]))
            /\ W(S, tree[3], p) = Dedup(w \o v)
            /\ W(S, tree[4], p) = Dedup(v \o w))

EmitText == P.emit = 0 \/ ~Accepted \/ PrintT(<<"REPORT", "pattern", 0, 0, ToJson(txt)>>)
=============================================================================
