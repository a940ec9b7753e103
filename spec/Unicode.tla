------------------------------ MODULE Unicode ------------------------------
(* Properties of code points (UTS 18, Unicode 14.0): what \p{..} stands for. *)
(* The values of a code point are data (data/unicode.json, which is made     *)
(* from an independent copy of the Unicode Character Database); which names  *)
(* there are, what they mean and how they are related is said here.          *)
EXTENDS Integers, Sequences, FiniteSets, Json

UDB == JsonDeserialize("data/unicode.json")
\* a segment is <<first, last, profile>>; a profile has gc, sc, scx, blk, age, bin
USegs == UDB.segs
UProfiles == UDB.profiles
UMaxPoint == 1114111

RECURSIVE USegIn(_, _, _)
USegIn(c, a, b) == IF a = b THEN a
                  ELSE LET m == (a + b) \div 2 IN IF c <= USegs[m][2] THEN USegIn(c, a, m) ELSE USegIn(c, m + 1, b)
UProfileAt(c) == UProfiles[USegs[USegIn(c, 1, Len(USegs))][3]]

\* --- names: letters, digits, "_" and ".", any case -----------------------------
ULetters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
UDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
UGlyph(c) == IF c >= 97 THEN ULetters[c - 96] ELSE IF c = 95 THEN "_" ELSE IF c >= 65 THEN ULetters[c - 64] ELSE IF c >= 48 THEN UDigits[c - 47] ELSE "."
RECURSIVE USpelled(_)
USpelled(codes) == IF codes = <<>> THEN "" ELSE UGlyph(Head(codes)) \o USpelled(Tail(codes))

UNamesOf(kind, v) == {UDB.aliases[kind][v][i] : i \in 1..Len(UDB.aliases[kind][v])}
UNamed(kind, s) == {v \in DOMAIN UDB.aliases[kind] : s \in UNamesOf(kind, v)}
UProp(k, v) == [k |-> k, v |-> v]
NoProp == UProp("none", "")
\* names which exist in Unicode and which the library need not know: later versions, deprecated
\* or duplicate aliases, values no character has
UMayLack == {"qaac", "qaai", "nag_mundari", "nagm", "ecomp", "emod", "ebase", "epres", "extpict", "cntrl", "combining_mark", "digit", "punct",
            "cyrillic_supplementary", "combining_marks_for_symbols", "latin_1", "private_use", "canadian_syllabics", "kawi",
            "katakana_or_hiragana", "hrkt"}
UPick(kind, s) == IF UNamed(kind, s) = {} THEN NoProp ELSE UProp(kind, CHOOSE v \in UNamed(kind, s) : TRUE)

\* \p{name}: a general category, a script or a binary property
USingle(s) ==
  IF s \in {"any", "assigned", "ascii"} THEN UProp(s, "")
  ELSE IF UNamed("gc", s) # {} THEN UPick("gc", s)
  ELSE IF UNamed("sc", s) # {} THEN UPick("sc", s)
  ELSE UPick("bin", s)
UVersion(s) == IF \E i \in 1..Len(UDB.ages) : UDB.ages[i] = s THEN UProp("age", s) ELSE NoProp
\* \p{type=value}
UTyped(t, s) ==
  CASE t \in {"script", "sc"} -> UPick("sc", s)
    [] t \in {"script_extension", "scx"} -> UPick("sc", s)
    [] t = "block" -> UPick("blk", s)
    [] t = "age" -> UVersion(s)
    [] OTHER -> NoProp
UIsExtension(t) == t \in {"script_extension", "scx"}
UResolve(name, value) ==
  IF value = <<>> THEN USingle(USpelled(name))
  ELSE LET t == USpelled(name) r == UTyped(t, USpelled(value)) IN
       IF r # NoProp /\ UIsExtension(t) THEN UProp("scx", r.v) ELSE r
\* "yes": has to be accepted, "no": has to be rejected, "any": neither
UExists(name, value) ==
  LET t == USpelled(name) s == USpelled(value) r == UResolve(name, value) IN
  IF (value = <<>> /\ t \in UMayLack) \/ (value # <<>> /\ s \in UMayLack)
     \/ (t = "block" /\ r.v = "nb") \/ (value # <<>> /\ r.k \in {"sc", "scx"} /\ r.v = "zzzz") THEN "any"
  ELSE IF r = NoProp THEN "no" ELSE "yes"

\* --- meaning --------------------------------------------------------------------
\* the categories of a group
UGroup(v) == CASE v = "lc" -> {"lu", "ll", "lt"}
              [] v = "l" -> {"lu", "ll", "lt", "lm", "lo"}
              [] v = "m" -> {"mn", "mc", "me"}
              [] v = "n" -> {"nd", "nl", "no"}
              [] v = "p" -> {"pc", "pd", "ps", "pe", "pi", "pf", "po"}
              [] v = "s" -> {"sm", "sc", "sk", "so"}
              [] v = "z" -> {"zs", "zl", "zp"}
              [] v = "c" -> {"cc", "cf", "cs", "co", "cn"}
              [] OTHER -> {v}
UAgeNo(a) == IF a = "na" THEN 0 ELSE CHOOSE i \in 1..Len(UDB.ages) : UDB.ages[i] = a
UIn(s, q) == \E i \in 1..Len(q) : q[i] = s
\* does a code point of profile f have the property
UHas(r, f) ==
  CASE r.k = "gc" -> f.gc \in UGroup(r.v)
    [] r.k = "sc" -> f.sc = r.v
    [] r.k = "scx" -> UIn(r.v, f.scx)
    [] r.k = "blk" -> f.blk = r.v
    [] r.k = "bin" -> UIn(r.v, f.bin)
    [] r.k = "age" -> UAgeNo(f.age) # 0 /\ UAgeNo(f.age) <= UAgeNo(r.v)
    [] r.k = "any" -> f.gc # ""      \* (what is above the last code point is of no category)
    [] r.k = "assigned" -> f.gc # "cn"
    [] r.k = "ascii" -> f.blk = "ascii"
    [] r.k = "none" -> FALSE
\* what is above the last code point has no property
PropHas(r, c) == c <= UMaxPoint /\ UHas(r, UProfileAt(c))
=============================================================================
