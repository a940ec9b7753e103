------------------------------- MODULE Chars -------------------------------
(* Character sets of the pattern language, as predicates over code units /   *)
(* code points (natural numbers).                                            *)
EXTENDS Integers, Sequences, Unicode

\* --- pattern punctuation -------------------------------------------------
LF == 10
QUOTE == 34   DOLLAR == 36  LPAR == 40   RPAR == 41   STAR == 42   PLUS == 43
COMMA == 44   MINUS == 45   DOT == 46    SLASH == 47  COLON == 58  LESS == 60
EQUALS == 61  GREATER == 62 QMARK == 63  LSQ == 91    BSLASH == 92 RSQ == 93
CARET == 94   UNDER == 95   LCUR == 123  PIPE == 124  RCUR == 125  BANG == 33

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsXDigit(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsWord(c) == IsAlpha(c) \/ IsDigit(c) \/ c = UNDER
IsNameStart(c) == IsAlpha(c) \/ c = UNDER

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87

\* the other ASCII case of a letter, the character itself otherwise
OtherCase(c) == IF IsUpper(c) THEN c + 32 ELSE IF IsLower(c) THEN c - 32 ELSE c
SameLetter(a, b) == a = b \/ OtherCase(a) = b

\* --- shorthand and POSIX classes (documented sets) -------------------------
HSpace == {9, 32, 160, 5760, 6158, 8192, 8193, 8194, 8195, 8196, 8197, 8198,
           8199, 8200, 8201, 8202, 8239, 8287, 12288}
VSpace == {10, 11, 12, 13, 133, 8232, 8233}
Space == {32, 9, 10, 11, 12, 13}
Punct == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)

ClassHas(name, c) ==
  CASE name = "digit" -> IsDigit(c)
    [] name = "word" -> IsWord(c)
    [] name = "space" -> c \in Space
    [] name = "hspace" -> c \in HSpace
    [] name = "vspace" -> c \in VSpace
    [] name = "newline" -> c = LF
    [] name = "alnum" -> IsAlpha(c) \/ IsDigit(c)
    [] name = "alpha" -> IsAlpha(c)
    [] name = "ascii" -> c <= 127
    [] name = "blank" -> c = 32 \/ c = 9
    [] name = "cntrl" -> c <= 31 \/ c = 127
    [] name = "graph" -> c >= 33 /\ c <= 126
    [] name = "lower" -> IsLower(c)
    [] name = "print" -> c >= 32 /\ c <= 126
    [] name = "punct" -> c \in Punct
    [] name = "upper" -> IsUpper(c)
    [] name = "xdigit" -> IsXDigit(c)

\* in the case-insensitive mode a member's other case is a member too
ClassHasCI(name, c, ci) == ClassHas(name, c) \/ (ci /\ ClassHas(name, OtherCase(c)))

\* An item of a set, or a stand-alone character-like atom:
\*   [t |-> "c", v]            one character
\*   [t |-> "r", a, b]         range, both ends included
\*   [t |-> "cls", name, n]    named class, n = negated
\*   [t |-> "set", n, items]   bracket set
\*   [t |-> "prop", n, r]      Unicode property, r is what its name stands for (see Unicode.tla);
\*                             the case-insensitive mode does not apply
RECURSIVE Accepts(_, _, _)
Accepts(x, c, ci) ==
  CASE x.t = "c" -> x.v = c \/ (ci /\ OtherCase(x.v) = c)
    [] x.t = "r" -> (c >= x.a /\ c <= x.b)
                    \/ (ci /\ LET o == OtherCase(c) IN o >= x.a /\ o <= x.b)
    [] x.t = "cls" -> ClassHasCI(x.name, c, ci) # x.n
    [] x.t = "set" -> (\E i \in 1..Len(x.items) : Accepts(x.items[i], c, ci)) # x.n
    [] x.t = "prop" -> PropHas(x.r, c) # x.n
    [] x.t = "any" -> TRUE
=============================================================================
