---------------------------- MODULE ValuesTrace -----------------------------
(* What the functions of the Unicode database answered for all code points:  *)
(* a record [id, t |-> "sweep", vals, segs], a segment <<first, last, k>> of *)
(* code points with the same answers vals[k]; and walks over the script      *)
(* extensions of a code point: [id, t |-> "walk", c, order, ev], an event    *)
(* <<operation, result>>.                                                    *)
EXTENDS Values, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(UProfiles)
Cats == {v \in DOMAIN UDB.aliases["gc"] : TRUE}
ASSUME TLCSet(22, TLCEval([k \in 1..N |-> TLCEval({v \in Cats : UHas(UProp("gc", v), UProfiles[k])})]))
CatsOf(k) == TLCGet(22)[k]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Flag(b) == IF b THEN 1 ELSE 0

VARIABLES id, i, p      \* i events (segments) have been looked at; p: the position of the walk
vars == <<id, i, p>>
Rec == Log[id]
Init == id \in 1..Len(Log) /\ i = 0 /\ p = 1

\* --- segments --------------------------------------------------------------------
Met(s) == USegIn(s[1], 1, Len(USegs)) .. USegIn(s[2], 1, Len(USegs))
\* the answers which depend on the profile of a code point; above the last one three
\* questions have no answer (is it unassigned, or of an unknown script)
Wrong(a, f, cats, above) ==
  {w \in {"category", "script", "extensions", "age", "block", "assigned", "valid", "category_is", "script_is"} :
     CASE w = "category" -> a.gc # f.gc
       [] w = "script" -> a.sc # f.sc
       [] w = "extensions" -> SetOf(a.scx) # UScripts(f) \/ Len(a.scx) # Cardinality(UScripts(f))
       [] w = "age" -> a.age # f.age
       [] w = "block" -> a.blk # f.blk
       \* (surrogates and private use: neither)
       [] w = "assigned" -> f.gc \notin {"cs", "co"} /\ a.assigned # Flag(UHas(UProp("assigned", ""), f))
       [] w = "valid" -> a.valid # Flag(~above)
       [] w = "category_is" -> IF above THEN SetOf(a.gis) \ {"cn", "c"} # {} ELSE SetOf(a.gis) # cats
       [] w = "script_is" -> IF above THEN SetOf(a.sis) \ {"zzzz"} # {} ELSE SetOf(a.sis) # {f.sc}}
WrongNumber(a, first, last) ==
  IF a.num = <<>> THEN UNumsOf(first, last) # {}
  ELSE \/ Cardinality(UNumsOf(first, last)) # last - first + 1
       \/ \E j \in UNumsOf(first, last) :
            LET n == <<UNums[j][2], UNums[j][3], UNums[j][4]>> IN
            \/ ~SameNumber(<<a.num[1], a.num[2], a.num[3]>>, n)
            \* value(), times 20160
            \/ ~SameNumber(<<a.num[4], a.num[5], 20160>>, n)
Say(what, c) == PrintT(<<"REPORT", what, Rec.id, c, "0">>)
Within(s) ==
  LET a == Rec.vals[s[3]] IN
  /\ \A m \in Met(s) :
       LET k == USegs[m][3] c == IF s[1] > USegs[m][1] THEN s[1] ELSE USegs[m][1]
           wrong == Wrong(a, UProfiles[k], CatsOf(k), FALSE) IN
       \A w \in wrong : Say(w, c)
  /\ (IF WrongNumber(a, s[1], s[2]) THEN Say("number", s[1]) ELSE TRUE)
  /\ (IF a.ascii = Flag(s[2] <= 127) /\ (s[1] > 127 \/ s[2] <= 127) THEN TRUE ELSE Say("ascii", s[1]))
Above(s) ==
  LET a == Rec.vals[s[3]] IN
  /\ \A w \in Wrong(a, UBeyond, {}, TRUE) : Say(w, s[1])
  /\ (IF a.num = <<>> /\ a.ascii = 0 THEN TRUE ELSE Say("number", s[1]))
NextSegment ==
  /\ Rec.t = "sweep" /\ i < Len(Rec.segs) /\ i' = i + 1 /\ UNCHANGED <<id, p>>
  /\ IF Rec.segs[i + 1][1] > UMaxPoint THEN Above(Rec.segs[i + 1]) ELSE Within(Rec.segs[i + 1])

\* --- walks -----------------------------------------------------------------------
NextStep ==
  /\ Rec.t = "walk" /\ i < Len(Rec.ev)
  /\ LET op == Rec.ev[i + 1][1] IN
     /\ IF ~WalkMay(Rec.order, p, op) THEN Say("past", i + 1)
        ELSE IF WalkGives(Rec.order, p, op) = Rec.ev[i + 1][2] THEN TRUE ELSE Say(op, i + 1)
     /\ p' = IF WalkMay(Rec.order, p, op) THEN WalkTo(Rec.order, p, op) ELSE p
  /\ i' = i + 1 /\ UNCHANGED id
\* the order of a walk is one of the scripts of the code point
Ordered == \A r \in 1..Len(Log) : Log[r].t = "walk" =>
  LET f == UProfileAt(Log[r].c) IN SetOf(Log[r].order) = UScripts(f) /\ Len(Log[r].order) = Cardinality(UScripts(f))
NotOrdered == IF Ordered THEN TRUE ELSE \A r \in {r \in 1..Len(Log) : Log[r].t = "walk"} :
  LET f == UProfileAt(Log[r].c) IN
  IF SetOf(Log[r].order) = UScripts(f) /\ Len(Log[r].order) = Cardinality(UScripts(f)) THEN TRUE ELSE PrintT(<<"REPORT", "order", Log[r].id, 0, "0">>)
ASSUME NotOrdered
Next == NextSegment \/ NextStep
Spec == Init /\ [][Next]_vars
=============================================================================
