-------------------------------- MODULE Syntax --------------------------------
(* Texts written character by character: every text of at most MaxLen        *)
(* characters of an alphabet. The laws of the reading are checked on each    *)
(* one, and (EMIT) the texts are printed so that the library reads them too. *)
(*   environment SYNTAX: JSON [alphabet: code points, prefix, suffix: texts, *)
(*   len]; a text is prefix \o characters \o suffix.                         *)
EXTENDS Parser, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.SYNTAX)
VARIABLES t
Text == P.prefix \o t \o P.suffix
Init == t = <<>>
Next == Len(t) < P.len /\ \E i \in 1..Len(P.alphabet) : t' = Append(t, P.alphabet[i])
Spec == Init /\ [][Next]_t

S(str) == str
Ok(T) == LET r == Parse(T) IN r.ok
\* --- the reading as a text with every structure in parentheses of its own
Digits(n) == LET RECURSIVE D(_) D(k) == IF k < 10 THEN <<48 + k>> ELSE Append(D(k \div 10), 48 + (k % 10)) IN D(n)
RECURSIVE Hex(_)
Hex(n) == LET d == n % 16 h == IF d < 10 THEN <<48 + d>> ELSE <<87 + d>> IN IF n < 16 THEN h ELSE Hex(n \div 16) \o h
Esc(v) == <<BSLASH, 120, LCUR>> \o Hex(v) \o <<RCUR>>
Open == <<LPAR, QMARK, COLON>>
ClassText(n) == (CHOOSE i \in 1..Len(ClassNames) : ClassNames[i][1] = n)
Letter == [digit |-> 100, word |-> 119, space |-> 115, hspace |-> 104, vspace |-> 118]
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))
RECURSIVE Item(_), Full(_, _)
ClsItem(x) == IF x.name \in DOMAIN Letter THEN <<BSLASH, IF x.n THEN Letter[x.name] - 32 ELSE Letter[x.name]>>
              ELSE IF x.name = "newline" THEN <<BSLASH, 78>>
              ELSE <<LSQ, COLON>> \o (IF x.n THEN <<CARET>> ELSE <<>>) \o ClassNames[ClassText(x.name)][2] \o <<COLON, RSQ>>
Item(x) ==
  CASE x.t = "c" -> Esc(x.v)
    [] x.t = "r" -> Esc(x.a) \o <<MINUS>> \o Esc(x.b)
    [] x.t = "cls" -> ClsItem(x)
    [] x.t = "prop" -> <<BSLASH, IF x.n THEN 80 ELSE 112, LCUR>> \o x.name \o (IF x.value = <<>> THEN <<>> ELSE <<EQUALS>> \o x.value) \o <<RCUR>>
ModeLetter == [i |-> 105, c |-> 99, s |-> 115, m |-> 109]
Inner(x, names) == IF x.t \in {"seq", "alt"} THEN Open \o Full(x, names) \o <<RPAR>> ELSE Full(x, names)
Full(x, names) ==
  CASE x.t \in {"c", "cls", "prop"} -> Item(x)
    [] x.t = "set" -> <<LSQ>> \o (IF x.n THEN <<CARET>> ELSE <<>>) \o Cat([i \in 1..Len(x.items) |-> Item(x.items[i])]) \o <<RSQ>>
    [] x.t = "any" -> <<DOT>>
    [] x.t = "bol" -> <<CARET>>
    [] x.t = "eol" -> <<DOLLAR>>
    [] x.t = "bos" -> <<BSLASH, 65>>
    [] x.t = "eos" -> <<BSLASH, 122>>
    [] x.t = "eosl" -> <<BSLASH, 90>>
    [] x.t = "wb" -> <<BSLASH, IF x.n THEN 66 ELSE 98>>
    [] x.t = "bref" -> <<BSLASH, 103, LCUR>> \o Digits(x.i) \o <<RCUR>>
    [] x.t = "nref" -> <<BSLASH, 103, LCUR>> \o x.name \o <<RCUR>>
    [] x.t = "mode" -> <<LPAR, QMARK>> \o [i \in 1..Len(x.v) |-> ModeLetter[x.v[i]]] \o <<RPAR>>
    [] x.t = "eps" -> Open \o <<RPAR>>
    [] x.t = "seq" -> Cat([i \in 1..Len(x.xs) |-> Inner(x.xs[i], names)])
    [] x.t = "alt" -> LET b == [i \in 1..Len(x.xs) |-> (IF i = 1 THEN <<>> ELSE <<PIPE>>) \o Inner(x.xs[i], names)] IN Cat(b)
    [] x.t = "grp" -> Open \o Full(x.x, names) \o <<RPAR>>
    [] x.t = "atom" -> <<LPAR, QMARK, GREATER>> \o Full(x.x, names) \o <<RPAR>>
    [] x.t = "cap" -> (IF names[x.i] = <<>> THEN <<LPAR>> ELSE <<LPAR, QMARK, LESS>> \o names[x.i] \o <<GREATER>>) \o Full(x.x, names) \o <<RPAR>>
    [] x.t = "look" -> <<LPAR, QMARK>> \o (IF x.d = "b" THEN <<LESS>> ELSE <<>>) \o <<IF x.n THEN BANG ELSE EQUALS>> \o Full(x.x, names) \o <<RPAR>>
    [] x.t = "rep" -> Open \o Full(x.x, names) \o <<RPAR, LCUR>> \o Digits(x.a) \o <<COMMA>> \o (IF x.b = Inf THEN <<>> ELSE Digits(x.b)) \o <<RCUR>>
                      \o (IF x.m = "l" THEN <<QMARK>> ELSE IF x.m = "p" THEN <<PLUS>> ELSE <<>>)

\* the structure without the parentheses which do not capture
RECURSIVE Bare(_)
Bare(x) ==
  CASE x.t = "grp" -> Bare(x.x)
    [] x.t \in {"cap", "atom", "look"} -> [x EXCEPT !.x = Bare(@)]
    [] x.t = "rep" -> [t |-> "rep", m |-> x.m, a |-> x.a, b |-> x.b, x |-> Bare(x.x)]
    [] x.t \in {"seq", "alt"} -> [x EXCEPT !.xs = [i \in 1..Len(@) |-> Bare(@[i])]]
    [] OTHER -> x

\* --- laws ---------------------------------------------------------------------------
\* the reading, written down with all its parentheses, is read the same way
ReadsBack == LET r == Parse(Text) IN
  r.ok => LET q == Parse(Full(r.x, r.names)) IN q.ok /\ q.nc = r.nc /\ q.names = r.names /\ Bare(q.x) = Bare(r.x)
\* a pattern can be put in a group of any kind
Nests == LET r == Parse(Text) IN
  r.ok => \A o \in {Open, <<LPAR, QMARK, GREATER>>, <<LPAR, QMARK, EQUALS>>, <<LPAR, QMARK, LESS, BANG>>} :
            LET q == Parse(o \o Text \o <<RPAR>>) IN q.ok /\ q.nc = r.nc
\* group numbers are the numbers of the opening parentheses: every group has its own
RECURSIVE Caps(_)
Caps(x) == CASE x.t = "cap" -> <<x.i>> \o Caps(x.x)
             [] x.t \in {"seq", "alt"} -> Cat([i \in 1..Len(x.xs) |-> Caps(x.xs[i])])
             [] x.t \in {"rep", "grp", "atom", "look"} -> Caps(x.x)
             [] OTHER -> <<>>
Numbered == LET r == Parse(Text) IN r.ok => Caps(r.x) = [i \in 1..r.nc |-> i] /\ Len(r.names) = r.nc
\* concatenation: two patterns behind each other (in groups) are read as both
Emit == PrintT(<<"REPORT", "text", 0, IF Ok(Text) THEN 1 ELSE 0, ToJson(Text)>>)
=============================================================================
