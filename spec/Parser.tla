------------------------------- MODULE Parser -------------------------------
(* The pattern language: text (sequence of code points) to syntax tree.      *)
(* Follows the published grammar include/ctre/pcre.gram non-terminal by      *)
(* non-terminal (predictive, one character of lookahead); semantic checks    *)
(* (references, quantifier operands, properties) are those of the language.  *)
(*                                                                           *)
(* A parsing operator takes the text T and a state [p, nc, names] (next      *)
(* position, groups opened so far, their names) and returns a state extended *)
(* with ok and the tree x.                                                   *)
EXTENDS Chars, FiniteSets

At(T, p) == IF p <= Len(T) THEN T[p] ELSE -1        \* -1: end of the pattern

Fail(s) == [ok |-> FALSE, p |-> s.p, nc |-> s.nc, names |-> s.names, x |-> [t |-> "eps"]]
Ret(s, p, x) == [ok |-> TRUE, p |-> p, nc |-> s.nc, names |-> s.names, x |-> x]
Eps == [t |-> "eps"]
Chr(v) == [t |-> "c", v |-> v]
Cls(name, n) == [t |-> "cls", name |-> name, n |-> n]

\* every character the grammar mentions; all the remaining ones are "other"
Mentioned(c) == IsWord(c) \/ c \in {BANG, QUOTE, DOLLAR, LPAR, RPAR, STAR, PLUS, COMMA, MINUS, DOT,
                  SLASH, COLON, LESS, EQUALS, GREATER, QMARK, LSQ, BSLASH, RSQ, CARET, LCUR, PIPE, RCUR}
Other(c) == c >= 0 /\ ~Mentioned(c)
NonSpecial(c) == IsWord(c) \/ c \in {SLASH, COMMA, COLON, BANG, EQUALS, QUOTE}
NonSpecialInClass(c) == c \in {SLASH, UNDER, PLUS, STAR, LPAR, RPAR, DOT, DOLLAR, LCUR, RCUR, QMARK,
                               BANG, EQUALS, LESS, GREATER, PIPE, QUOTE}
LiteralChar(c) == Other(c) \/ NonSpecial(c) \/ c \in {COLON, RSQ, MINUS, LESS, GREATER}
StartsAtom(c) == LiteralChar(c) \/ c \in {DOT, BSLASH, CARET, DOLLAR, LPAR, LSQ}
EscapedSpecial(c) == c \in {DOT, LSQ, RSQ, LCUR, RCUR, LPAR, RPAR, BSLASH, STAR, PLUS, QMARK, PIPE,
                            CARET, DOLLAR, MINUS, SLASH, QUOTE, LESS, GREATER}

\* --- numbers -----------------------------------------------------------------
RECURSIVE NumEnd(_, _)
NumEnd(T, p) == IF IsDigit(At(T, p)) THEN NumEnd(T, p + 1) ELSE p
RECURSIVE NumVal(_, _, _, _)
NumVal(T, p, q, v) == IF p = q THEN v ELSE NumVal(T, p + 1, q, v * 10 + (T[p] - 48))
Number(T, p) == [ok |-> IsDigit(At(T, p)), p |-> NumEnd(T, p),
                 v |-> IF IsDigit(At(T, p)) THEN NumVal(T, p, NumEnd(T, p), 0) ELSE 0]

RECURSIVE HexEnd(_, _)
HexEnd(T, p) == IF p <= Len(T) /\ IsXDigit(T[p]) THEN HexEnd(T, p + 1) ELSE p
RECURSIVE HexNum(_, _, _, _)
HexNum(T, p, q, v) == IF p = q THEN v ELSE HexNum(T, p + 1, q, v * 16 + HexVal(T[p]))

\* p is the position behind the letter (x or u), digits the length of the short form
HexEscape(T, s, p, digits) ==
  IF At(T, p) = LCUR
  THEN LET q == HexEnd(T, p + 1) IN
       IF q > p + 1 /\ At(T, q) = RCUR THEN Ret(s, q + 1, Chr(HexNum(T, p + 1, q, 0))) ELSE Fail(s)
  ELSE IF p + digits - 1 <= Len(T) /\ \A i \in p..(p + digits - 1) : IsXDigit(T[i])
  THEN Ret(s, p + digits, Chr(HexNum(T, p, p + digits, 0)))
  ELSE Fail(s)

\* --- names ---------------------------------------------------------------------
RECURSIVE NameEnd(_, _)
NameEnd(T, p) == IF p <= Len(T) /\ IsWord(T[p]) THEN NameEnd(T, p + 1) ELSE p
Name(T, p) == [ok |-> p <= Len(T) /\ IsNameStart(T[p]), p |-> NameEnd(T, p),
               v |-> SubSeq(T, p, NameEnd(T, p) - 1)]

\* --- escapes usable as an end of a range (backslash_range); p is behind the backslash
BackslashRange(T, s, p) ==
  LET c == At(T, p) IN
  CASE EscapedSpecial(c) -> Ret(s, p + 1, Chr(c))
    [] c = 117 -> HexEscape(T, s, p + 1, 4)        \* u
    [] c = 120 -> HexEscape(T, s, p + 1, 2)        \* x
    [] c = 110 -> Ret(s, p + 1, Chr(10))           \* n
    [] c = 116 -> Ret(s, p + 1, Chr(9))            \* t
    [] c = 114 -> Ret(s, p + 1, Chr(13))           \* r
    [] c = 48  -> Ret(s, p + 1, Chr(0))            \* 0
    [] c = 97  -> Ret(s, p + 1, Chr(7))            \* a
    [] c = 101 -> Ret(s, p + 1, Chr(27))           \* e
    [] c = 102 -> Ret(s, p + 1, Chr(12))           \* f
    [] OTHER -> Fail(s)

RECURSIVE PropEnd(_, _)
PropEnd(T, p) == IF p <= Len(T) /\ (IsWord(T[p]) \/ T[p] = DOT) THEN PropEnd(T, p + 1) ELSE p
\* \p{name} or \p{name=value}; whether the name exists is not the grammar's
\* business: r is what it stands for, ex whether it has to exist (see Unicode.tla)
Property(T, s, p, neg) ==
  LET q == PropEnd(T, p + 1)
      v == IF At(T, q) = EQUALS THEN PropEnd(T, q + 1) ELSE q
  IN IF At(T, p) = LCUR /\ q > p + 1 /\ (v = q \/ v > q + 1) /\ At(T, v) = RCUR
     THEN LET name == SubSeq(T, p + 1, q - 1) value == SubSeq(T, q + 1, v - 1) IN
          Ret(s, v + 1, [t |-> "prop", n |-> neg, name |-> name, value |-> value, r |-> UResolve(name, value), ex |-> UExists(name, value)])
     ELSE Fail(s)

\* classes (backslash_set), never an end of a range
BackslashSet(T, s, p) ==
  LET c == At(T, p)
      R(name, n) == Ret(s, p + 1, Cls(name, n))
  IN
  CASE c = 100 -> R("digit", FALSE)   [] c = 68 -> R("digit", TRUE)
    [] c = 119 -> R("word", FALSE)    [] c = 87 -> R("word", TRUE)
    [] c = 115 -> R("space", FALSE)   [] c = 83 -> R("space", TRUE)
    [] c = 118 -> R("vspace", FALSE)  [] c = 86 -> R("vspace", TRUE)
    [] c = 104 -> R("hspace", FALSE)  [] c = 72 -> R("hspace", TRUE)
    [] c = 78  -> R("newline", TRUE)
    [] c = 112 -> Property(T, s, p + 1, FALSE)
    [] c = 80  -> Property(T, s, p + 1, TRUE)
    [] OTHER -> Fail(s)

\* --- bracket sets ------------------------------------------------------------
ClassNames == << <<"alnum", <<97,108,110,117,109>>>>, <<"alpha", <<97,108,112,104,97>>>>,
  <<"ascii", <<97,115,99,105,105>>>>, <<"blank", <<98,108,97,110,107>>>>, <<"cntrl", <<99,110,116,114,108>>>>,
  <<"digit", <<100,105,103,105,116>>>>, <<"graph", <<103,114,97,112,104>>>>, <<"lower", <<108,111,119,101,114>>>>,
  <<"print", <<112,114,105,110,116>>>>, <<"punct", <<112,117,110,99,116>>>>, <<"space", <<115,112,97,99,101>>>>,
  <<"upper", <<117,112,112,101,114>>>>, <<"word", <<119,111,114,100>>>>, <<"xdigit", <<120,100,105,103,105,116>>>> >>

\* p is behind "[": expects ":name:]" or ":^name:]"
ClassNamed(T, s, p) ==
  LET neg == At(T, p + 1) = CARET
      b == IF neg THEN p + 2 ELSE p + 1
      hits == {i \in 1..Len(ClassNames) :
                 LET w == ClassNames[i][2] IN
                 b + Len(w) + 1 <= Len(T) /\ SubSeq(T, b, b + Len(w) - 1) = w
                 /\ T[b + Len(w)] = COLON /\ T[b + Len(w) + 1] = RSQ}
  IN IF At(T, p) = COLON /\ hits # {}
     THEN LET i == CHOOSE i \in hits : TRUE
          IN Ret(s, b + Len(ClassNames[i][2]) + 2, Cls(ClassNames[i][1], neg))
     ELSE Fail(s)

\* optional "-end" behind a character item
RangeTail(T, r) ==
  IF ~r.ok \/ At(T, r.p) # MINUS THEN r
  ELSE LET c == At(T, r.p + 1)
           hi == IF c = BSLASH THEN BackslashRange(T, r, r.p + 2)
                 ELSE IF Other(c) \/ NonSpecial(c) \/ NonSpecialInClass(c) \/ c = CARET
                 THEN Ret(r, r.p + 2, Chr(c)) ELSE Fail(r)
       IN IF hi.ok /\ r.x.t = "c" THEN Ret(r, hi.p, [t |-> "r", a |-> r.x.v, b |-> hi.x.v]) ELSE Fail(r)

SetItem(T, s, first) ==
  LET c == At(T, s.p) IN
  IF Other(c) \/ NonSpecial(c) \/ NonSpecialInClass(c) \/ (c = CARET /\ ~first)
  THEN RangeTail(T, Ret(s, s.p + 1, Chr(c)))
  ELSE IF c = LSQ THEN RangeTail(T, ClassNamed(T, s, s.p + 1))
  ELSE IF c = BSLASH
  THEN LET r == BackslashRange(T, s, s.p + 1) IN
       IF r.ok THEN RangeTail(T, r) ELSE BackslashSet(T, s, s.p + 1)
  ELSE Fail(s)

RECURSIVE SetItems(_, _, _)
SetItems(T, s, acc) ==
  IF At(T, s.p) = RSQ THEN Ret(s, s.p + 1, acc)
  ELSE LET r == SetItem(T, s, FALSE) IN
       IF r.ok THEN SetItems(T, r, Append(acc, r.x)) ELSE Fail(s)

\* p is at "["
BracketSet(T, s) ==
  IF At(T, s.p + 1) = CARET
  THEN LET r == SetItems(T, [s EXCEPT !.p = s.p + 2], <<>>)
       IN IF r.ok THEN Ret(s, r.p, [t |-> "set", n |-> TRUE, items |-> r.x]) ELSE Fail(s)
  ELSE LET f == SetItem(T, [s EXCEPT !.p = s.p + 1], TRUE)
           r == IF f.ok THEN SetItems(T, f, <<f.x>>) ELSE Fail(s)
       IN IF r.ok THEN Ret(s, r.p, [t |-> "set", n |-> FALSE, items |-> r.x]) ELSE Fail(s)

\* --- references ------------------------------------------------------------------
\* \g{-n} \g{n} \g{name}; p is behind the g
GReference(T, s, p) ==
  IF At(T, p) # LCUR THEN Fail(s)
  ELSE IF At(T, p + 1) = MINUS
  THEN LET n == Number(T, p + 2) IN
       IF n.ok /\ At(T, n.p) = RCUR /\ n.v >= 1 /\ n.v <= s.nc
       THEN Ret(s, n.p + 1, [t |-> "bref", i |-> s.nc + 1 - n.v]) ELSE Fail(s)
  ELSE LET n == Number(T, p + 1) IN
  IF n.ok
  THEN IF At(T, n.p) = RCUR /\ n.v <= s.nc THEN Ret(s, n.p + 1, [t |-> "bref", i |-> n.v]) ELSE Fail(s)
  ELSE LET m == Name(T, p + 1) IN
       IF m.ok /\ At(T, m.p) = RCUR THEN Ret(s, m.p + 1, [t |-> "nref", name |-> m.v]) ELSE Fail(s)

Escape(T, s, p) ==
  LET c == At(T, p) IN
  CASE c = 65 -> Ret(s, p + 1, [t |-> "bos"])
    [] c = 122 -> Ret(s, p + 1, [t |-> "eos"])
    [] c = 90 -> Ret(s, p + 1, [t |-> "eosl"])
    [] c = 98 -> Ret(s, p + 1, [t |-> "wb", n |-> FALSE])
    [] c = 66 -> Ret(s, p + 1, [t |-> "wb", n |-> TRUE])
    [] c = 103 -> GReference(T, s, p + 1)
    [] c >= 49 /\ c <= 57 -> IF c - 48 <= s.nc THEN Ret(s, p + 1, [t |-> "bref", i |-> c - 48]) ELSE Fail(s)
    [] OTHER -> LET r == BackslashRange(T, s, p) IN IF r.ok THEN r ELSE BackslashSet(T, s, p)

\* --- quantifiers -----------------------------------------------------------------
\* inf = -1. Quantifying a lone optional by ? again gives that optional back (its laziness stays).
Inf == -1
RECURSIVE Ungroup(_)
Ungroup(x) == IF x.t = "grp" THEN Ungroup(x.x) ELSE x
IsOptional(x) == x.t = "rep" /\ x.a = 0 /\ x.b = 1 /\ x.m \in {"g", "l"} /\ x.single

\* one atom: anything but a sequence, or a run of literals
RECURSIVE Run(_)
Run(x) == LET u == Ungroup(x) IN
  u.t = "c" \/ (u.t = "seq" /\ (\A i \in 1..(Len(u.xs) - 1) : u.xs[i].t = "c") /\ Run(u.xs[Len(u.xs)]))
Single(x) == Ungroup(x).t # "seq" \/ Run(x)

Quantified(m, a, b, x) ==
  [t |-> "rep", m |-> m, a |-> a, b |-> b, x |-> x, single |-> Single(x)]

\* maximum 0 written in braces means no maximum in this language
MaxOf(v) == IF v = 0 THEN Inf ELSE v

Suffix(T, s, p, a, b, x) ==
  LET c == At(T, p) IN
  IF c = QMARK THEN Ret(s, p + 1, Quantified("l", a, b, x))
  ELSE IF c = PLUS THEN Ret(s, p + 1, Quantified("p", a, b, x))
  ELSE Ret(s, p, Quantified("g", a, b, x))

OptionalSuffix(T, s, p, x) ==
  LET u == Ungroup(x) IN
  IF IsOptional(u)
  THEN LET c == At(T, p) IN
       IF c = QMARK THEN Ret(s, p + 1, [u EXCEPT !.m = "l"])
       ELSE IF c = PLUS THEN Ret(s, p + 1, [u EXCEPT !.m = "p"])
       ELSE Ret(s, p, u)
  ELSE Suffix(T, s, p, 0, 1, x)

Quantifier(T, r) ==
  IF ~r.ok THEN r ELSE
  LET c == At(T, r.p) x == r.x IN
  IF c = STAR THEN Suffix(T, r, r.p + 1, 0, Inf, x)
  ELSE IF c = PLUS THEN Suffix(T, r, r.p + 1, 1, Inf, x)
  ELSE IF c = QMARK THEN OptionalSuffix(T, r, r.p + 1, x)
  ELSE IF c = LCUR
  THEN LET n == Number(T, r.p + 1) d == At(T, n.p) IN
       IF ~n.ok THEN Fail(r)
       ELSE IF d = RCUR THEN Ret(r, n.p + 1, Quantified("g", n.v, MaxOf(n.v), x))
       ELSE IF d # COMMA THEN Fail(r)
       ELSE IF At(T, n.p + 1) = RCUR THEN Suffix(T, r, n.p + 2, n.v, Inf, x)
       ELSE LET k == Number(T, n.p + 1) IN
            IF k.ok /\ At(T, k.p) = RCUR THEN Suffix(T, r, k.p + 1, n.v, MaxOf(k.v), x) ELSE Fail(r)
  ELSE r

\* --- groups, sequences and alternatives --------------------------------------------
RECURSIVE ModeLetters(_, _, _)
ModeLetters(T, p, acc) ==
  LET c == At(T, p) IN
  IF c = 105 THEN ModeLetters(T, p + 1, Append(acc, "i"))
  ELSE IF c = 99 THEN ModeLetters(T, p + 1, Append(acc, "c"))
  ELSE IF c = 115 THEN ModeLetters(T, p + 1, Append(acc, "s"))
  ELSE IF c = 109 THEN ModeLetters(T, p + 1, Append(acc, "m"))
  ELSE [p |-> p, v |-> acc]

SeqNode(xs) == IF Len(xs) = 1 THEN xs[1] ELSE [t |-> "seq", xs |-> xs]

RECURSIVE Alternatives(_, _, _), Sequence(_, _, _), Atom(_, _)

\* after the inside of a group: the closing parenthesis
Close(T, r, x) == IF r.ok /\ At(T, r.p) = RPAR THEN Ret(r, r.p + 1, x) ELSE Fail(r)

\* s.p is behind "("
Group(T, s) ==
  LET c == At(T, s.p)
      inside(q) == Alternatives(T, [s EXCEPT !.p = q], "start")
  IN
  IF c # QMARK
  THEN LET id == s.nc + 1
           r == Alternatives(T, [s EXCEPT !.nc = id, !.names = Append(@, <<>>)], "start")
       IN Close(T, r, [t |-> "cap", i |-> id, x |-> r.x])
  ELSE LET d == At(T, s.p + 1) IN
  CASE d = COLON -> LET r == inside(s.p + 2) IN Close(T, r, [t |-> "grp", x |-> r.x])
    [] d = GREATER -> LET r == inside(s.p + 2) IN Close(T, r, [t |-> "atom", x |-> r.x])
    [] d = EQUALS -> LET r == inside(s.p + 2) IN Close(T, r, [t |-> "look", d |-> "a", n |-> FALSE, x |-> r.x])
    [] d = BANG -> LET r == inside(s.p + 2) IN Close(T, r, [t |-> "look", d |-> "a", n |-> TRUE, x |-> r.x])
    [] d = LESS /\ At(T, s.p + 2) = EQUALS ->
         LET r == inside(s.p + 3) IN Close(T, r, [t |-> "look", d |-> "b", n |-> FALSE, x |-> r.x])
    [] d = LESS /\ At(T, s.p + 2) = BANG ->
         LET r == inside(s.p + 3) IN Close(T, r, [t |-> "look", d |-> "b", n |-> TRUE, x |-> r.x])
    [] d = LESS /\ IsNameStart(At(T, s.p + 2)) ->
         LET m == Name(T, s.p + 2)
             id == s.nc + 1
             r == Alternatives(T, [s EXCEPT !.p = m.p + 1, !.nc = id, !.names = Append(@, m.v)], "start")
         IN IF At(T, m.p) = GREATER THEN Close(T, r, [t |-> "cap", i |-> id, x |-> r.x]) ELSE Fail(s)
    [] d \in {105, 99, 115, 109} ->
         LET m == ModeLetters(T, s.p + 1, <<>>) IN
         IF At(T, m.p) = RPAR THEN Ret(s, m.p + 1, [t |-> "mode", v |-> m.v]) ELSE Fail(s)
    [] OTHER -> Fail(s)

Atom(T, s) ==
  LET c == At(T, s.p) IN
  IF LiteralChar(c) THEN Ret(s, s.p + 1, Chr(c))
  ELSE IF c = DOT THEN Ret(s, s.p + 1, [t |-> "any"])
  ELSE IF c = CARET THEN Ret(s, s.p + 1, [t |-> "bol"])
  ELSE IF c = DOLLAR THEN Ret(s, s.p + 1, [t |-> "eol"])
  ELSE IF c = BSLASH THEN Escape(T, s, s.p + 1)
  ELSE IF c = LPAR THEN Group(T, [s EXCEPT !.p = s.p + 1])
  ELSE IF c = LSQ THEN BracketSet(T, s)
  ELSE Fail(s)

Sequence(T, s, acc) ==
  IF StartsAtom(At(T, s.p))
  THEN LET r == Quantifier(T, Atom(T, s)) IN
       IF r.ok THEN Sequence(T, r, Append(acc, r.x)) ELSE r
  ELSE Ret(s, s.p, SeqNode(acc))

\* where = "start": the first alternative may be empty; "after": behind "|"; only the last
\* alternative behind a bar may be empty, and nothing follows an empty one
Alternatives(T, s, where) ==
  IF StartsAtom(At(T, s.p))
  THEN LET r == Sequence(T, s, <<>>) IN
       IF ~r.ok \/ At(T, r.p) # PIPE THEN r
       ELSE LET q == Alternatives(T, [r EXCEPT !.p = r.p + 1], "after") IN
            IF ~q.ok THEN q
            ELSE [q EXCEPT !.x = IF q.x.t = "alt" THEN [q.x EXCEPT !.xs = <<r.x>> \o @]
                                 ELSE [t |-> "alt", xs |-> <<r.x, q.x>>]]
  ELSE IF where = "start" /\ At(T, s.p) = PIPE
  THEN LET q == Alternatives(T, [s EXCEPT !.p = s.p + 1], "after") IN
       IF ~q.ok THEN q
       ELSE [q EXCEPT !.x = IF q.x.t = "alt" THEN [q.x EXCEPT !.xs = <<Eps>> \o @]
                            ELSE [t |-> "alt", xs |-> <<Eps, q.x>>]]
  ELSE Ret(s, s.p, Eps)

\* --- the whole pattern -----------------------------------------------------------
Parse(T) ==
  LET r == Alternatives(T, [p |-> 1, nc |-> 0, names |-> <<>>], "start")
  IN [ok |-> r.ok /\ r.p = Len(T) + 1, nc |-> r.nc, names |-> r.names, x |-> r.x]

\* names resolve to the group with the smallest number; -1: no such group
GroupOf(names, n) ==
  LET hits == {i \in 1..Len(names) : names[i] = n}
  IN IF hits = {} THEN -1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

RECURSIVE Resolve(_, _)
Resolve(x, names) ==
  CASE x.t = "nref" -> [t |-> "bref", i |-> GroupOf(names, x.name)]
    [] x.t \in {"seq", "alt"} -> [x EXCEPT !.xs = [i \in 1..Len(x.xs) |-> Resolve(x.xs[i], names)]]
    [] x.t \in {"rep", "cap", "grp", "atom", "look"} -> [x EXCEPT !.x = Resolve(x.x, names)]
    [] OTHER -> x

\* every reference by name has its group
RECURSIVE PropKinds(_)
\* of the properties in a pattern: do they exist ("yes", "no", "any": not said here)
PropKinds(x) ==
  CASE x.t = "prop" -> {x.ex}
    [] x.t = "set" -> UNION {PropKinds(x.items[k]) : k \in 1..Len(x.items)}
    [] x.t \in {"seq", "alt"} -> UNION {PropKinds(x.xs[k]) : k \in 1..Len(x.xs)}
    [] x.t \in {"rep", "cap", "grp", "atom", "look"} -> PropKinds(x.x)
    [] OTHER -> {}

RECURSIVE RefsExist(_, _)
RefsExist(x, names) ==
  CASE x.t = "nref" -> GroupOf(names, x.name) # -1
    [] x.t \in {"seq", "alt"} -> \A i \in 1..Len(x.xs) : RefsExist(x.xs[i], names)
    [] x.t \in {"rep", "cap", "grp", "atom", "look"} -> RefsExist(x.x, names)
    [] OTHER -> TRUE

\* Known finding: what is inside of a lookbehind is evaluated backwards, and that is implemented for
\* characters, sequences, alternatives, groups, assertions and lookarounds only; the rest does not compile
RECURSIVE BehindLimit(_, _)
BehindLimit(x, inside) ==
  CASE x.t \in {"seq", "alt"} -> \E i \in 1..Len(x.xs) : BehindLimit(x.xs[i], inside)
    [] x.t \in {"rep", "cap", "atom"} -> inside \/ BehindLimit(x.x, inside)
    [] x.t = "grp" -> BehindLimit(x.x, inside)
    [] x.t = "look" -> BehindLimit(x.x, IF x.d = "b" THEN TRUE ELSE FALSE)
    [] x.t \in {"bref", "nref", "mode"} -> inside
    [] OTHER -> FALSE
=============================================================================
