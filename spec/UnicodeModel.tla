---------------------------- MODULE UnicodeModel ----------------------------
(* A walk over all code points, a segment of equal ones at a time: the laws  *)
(* the properties of a code point obey.                                      *)
EXTENDS Unicode, TLC, SequencesExt
VARIABLES i, seen
vars == <<i, seen>>
F == UProfiles[USegs[i][3]]
B(n) == UIn(n, F.bin)
Gc(v) == F.gc \in UGroup(v)
Two == {"lu", "ll", "lt", "lm", "lo", "mn", "mc", "me", "nd", "nl", "no", "pc", "pd", "ps", "pe", "pi", "pf", "po",
        "sm", "sc", "sk", "so", "zs", "zl", "zp", "cc", "cf", "cs", "co", "cn"}
One == {"l", "m", "n", "p", "s", "z", "c"}
\* seen: the blocks which have begun (a block is contiguous)
Init == i = 1 /\ seen = {F.blk}
Next == /\ i < Len(USegs) /\ i' = i + 1
        /\ LET g == UProfiles[USegs[i + 1][3]].blk IN
           seen' = IF g = F.blk \/ g = "nb" THEN seen ELSE IF g \in seen THEN seen \cup {"twice"} ELSE seen \cup {g}
Spec == Init /\ [][Next]_vars

\* the segments are the code points, each once
Whole == /\ (i = 1 => USegs[1][1] = 0) /\ USegs[i][1] <= USegs[i][2]
         /\ IF i = Len(USegs) THEN USegs[i][2] = UMaxPoint ELSE USegs[i + 1][1] = USegs[i][2] + 1
Found == UProfileAt(USegs[i][1]) = F /\ UProfileAt(USegs[i][2]) = F
\* categories are a partition, and so are their groups
Categories == F.gc \in Two /\ Cardinality({g \in One : Gc(g)}) = 1
              /\ (\A v \in Two : UHas(UProp("gc", v), F) = (v = F.gc))
              /\ (Gc("lc") => Gc("l")) /\ (\A h \in One \cup {"lc"} : UGroup(h) \subseteq Two)
\* scripts too; unknown is unassigned, private use and surrogates
Scripts == /\ F.sc \in DOMAIN UDB.aliases["sc"]
           /\ (F.sc = "zzzz") = (F.gc \in {"cn", "co", "cs"})
           /\ F.scx # <<>> /\ ToSet(F.scx) \subseteq DOMAIN UDB.aliases["sc"]
           /\ (F.sc \notin {"zyyy", "zinh"} => F.sc \in ToSet(F.scx))
           /\ (F.sc = "zzzz" => F.scx = <<"zzzz">>)
           /\ (F.sc \in {"zyyy", "zinh"} => (F.scx = <<F.sc>> \/ ToSet(F.scx) \cap {"zyyy", "zinh", "zzzz"} = {}))
\* what has been assigned has an age, and what has an age stays: ages are nested
Ages == /\ (F.age = "na") = (F.gc = "cn" /\ ~B("nchar"))
        /\ \A a \in 1..Len(UDB.ages) - 1 : UHas(UProp("age", UDB.ages[a]), F) => UHas(UProp("age", UDB.ages[a + 1]), F)
        /\ (F.age # "na" => UHas(UProp("age", UDB.ages[Len(UDB.ages)]), F))
Assigned == UHas(UProp("assigned", ""), F) = ~UHas(UProp("gc", "cn"), F) /\ UHas(UProp("any", ""), F)
Ascii == UHas(UProp("ascii", ""), F) = (USegs[i][2] <= 127)
Blocks == F.blk \in DOMAIN UDB.aliases["blk"] /\ "twice" \notin seen
          /\ (F.blk # "nb" => (USegs[i][1] % 16 # 0 => UProfileAt(USegs[i][1] - 1).blk = F.blk))
\* the definitions of derived properties (UAX 44, UAX 31, UTS 51)
Derived ==
  /\ (Gc("lu") => B("upper")) /\ (Gc("ll") => B("lower")) /\ ~(B("upper") /\ B("lower"))
  /\ (B("cased") = (B("lower") \/ B("upper") \/ Gc("lt")))
  /\ ((B("lower") \/ B("upper") \/ Gc("l") \/ Gc("nl")) => B("alpha"))
  /\ (Gc("sm") => B("math"))
  /\ ((Gc("mn") \/ Gc("me") \/ Gc("cf") \/ Gc("lm") \/ Gc("sk")) => B("ci"))
  /\ (B("ids") => B("idc")) /\ (B("xids") => B("xidc")) /\ (B("xids") => B("ids")) /\ (B("xidc") => B("idc"))
  /\ (B("ids") => (Gc("l") \/ Gc("nl") \/ F.gc \in {"so", "sm", "po", "sk", "mn"}))
  /\ ((Gc("mn") \/ Gc("me")) => B("gr_ext")) /\ (B("gr_ext") => ~B("gr_base"))
  /\ (B("gr_base") => (F.gc \notin {"cc", "cf", "cs", "co", "cn", "zl", "zp"}))
  /\ ((F.gc \notin {"cc", "cf", "cs", "co", "cn", "zl", "zp"}) => (B("gr_base") # B("gr_ext")))
  /\ (Gc("z") => B("wspace")) /\ (B("ahex") => B("hex")) /\ (B("ahex") => USegs[i][2] <= 127)
  /\ (B("nchar") => (F.gc = "cn")) /\ (B("uideo") => (B("ideo") /\ F.sc = "hani"))
  /\ (B("pat_syn") => ~B("pat_ws")) /\ (B("pat_ws") => (B("wspace") \/ F.gc = "cf"))
  /\ (B("dash") => (Gc("pd") \/ F.gc \in {"sm", "po"})) /\ (Gc("pd") => B("dash"))
  /\ (B("sterm") => B("term")) /\ (B("vs") => (B("di") /\ (Gc("mn")))) /\ (B("bidi_c") => (Gc("cf")))
  /\ (B("emoji_presentation") => B("emoji")) /\ (B("emoji_modifier_base") => B("emoji")) /\ (B("emoji_modifier") => (B("emoji") /\ Gc("sk")))
  /\ (B("ri") => (B("emoji") /\ B("emoji_component"))) /\ (B("pcm") => (Gc("cf"))) /\ (B("join_c") => Gc("cf"))
\* no name means two things
ASSUME \A k \in {"gc", "sc", "blk", "bin"} : \A v \in DOMAIN UDB.aliases[k] : \A s \in UNamesOf(k, v) : UNamed(k, s) = {v}
ASSUME \A k1, k2 \in {"gc", "sc", "bin"} : k1 # k2 => \A v \in DOMAIN UDB.aliases[k1] : \A s \in UNamesOf(k1, v) : UNamed(k2, s) = {}
=============================================================================
