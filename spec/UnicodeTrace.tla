---------------------------- MODULE UnicodeTrace ----------------------------
(* All code points matched with patterns of one character: a record is       *)
(* [id, pats, ons, segs]; a segment <<first, last, k>> of code points which  *)
(* are matched by the same patterns, the ones of ons[k].                     *)
EXTENDS Parser, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
\* (registers: TLC does not keep the values of definitions with recursive operators)
ASSUME TLCSet(1, TLCEval([r \in 1..Len(Log) |-> TLCEval([p \in 1..Len(Log[r].pats) |-> Parse(Log[r].pats[p])])]))
Parsed == TLCGet(1)
ASSUME \A r \in 1..Len(Log) : \A p \in 1..Len(Log[r].pats) : Parsed[r][p].ok

RECURSIVE Member(_, _)
Member(x, f) == IF x.t = "prop" THEN UHas(x.r, f) # x.n
                ELSE (\E k \in 1..Len(x.items) : Member(x.items[k], f)) # x.n
\* known deviation: reserved code points have no binary properties
Reserved(f) == f.gc = "cn" /\ f.bin # <<>> /\ ~UIn("nchar", f.bin)
Lacking(f) == [f EXCEPT !.bin = <<>>]
N == Len(UProfiles)
Matched(r, f) == {p \in 1..Len(Log[r].pats) : Member(Parsed[r][p].x, f)}
ASSUME TLCSet(2, TLCEval([r \in 1..Len(Log) |-> TLCEval([k \in 1..N |-> TLCEval(Matched(r, UProfiles[k]))])]))
Expected == TLCGet(2)
ASSUME TLCSet(3, TLCEval([k \in {k \in 1..N : Reserved(UProfiles[k])} |-> TLCEval([r \in 1..Len(Log) |-> TLCEval(Matched(r, Lacking(UProfiles[k])))])]))
Lack == TLCGet(3)
\* what is above the last code point has no property; whether it is "unassigned" and of an
\* "unknown" script is not said
Nothing == [gc |-> "", sc |-> "", scx |-> <<>>, blk |-> "", age |-> "na", bin |-> <<>>]
Unassigned == [Nothing EXCEPT !.gc = "cn", !.sc = "zzzz", !.scx = <<"zzzz">>, !.blk = "nb"]
ASSUME TLCSet(4, TLCEval([r \in 1..Len(Log) |-> <<TLCEval(Matched(r, Nothing)), TLCEval(Matched(r, Unassigned))>>]))
Above == TLCGet(4)
Diff(a, b) == (a \ b) \cup (b \ a)

VARIABLES id, i      \* the segments 1..i of a record have been looked at
vars == <<id, i>>
Rec == Log[id]
Init == id \in 1..Len(Log) /\ i = 0
\* the first and the last profile of the reference met by a segment
Met(s) == USegIn(s[1], 1, Len(USegs)) .. USegIn(s[2], 1, Len(USegs))
Beyond(s) ==
  LET on == {Rec.ons[s[3]][q] : q \in 1..Len(Rec.ons[s[3]])}
      wrong == Diff(on, Above[id][1]) \ Diff(Above[id][1], Above[id][2]) IN
  \A p \in wrong : PrintT(<<"REPORT", "prop", Rec.id, p, ToJson(<<s[1], IF p \in on THEN 1 ELSE 0>>)>>)
Step(s) ==
  LET on == {Rec.ons[s[3]][q] : q \in 1..Len(Rec.ons[s[3]])}
      wrong == [m \in Met(s) |-> LET k == USegs[m][3] IN Diff(on, Expected[id][k])]
      allowed(m) == LET k == USegs[m][3] IN IF k \in DOMAIN Lack THEN Diff(Expected[id][k], Lack[k][id]) ELSE {}
      bad == {m \in DOMAIN wrong : ~(wrong[m] \subseteq allowed(m))}
      known == {m \in DOMAIN wrong : wrong[m] # {} /\ m \notin bad}
      say(what, m, ps) == \A p \in ps : PrintT(<<"REPORT", what, Rec.id, p, ToJson(<<IF s[1] > USegs[m][1] THEN s[1] ELSE USegs[m][1], IF p \in on THEN 1 ELSE 0>>)>>)
  IN /\ IF bad = {} THEN TRUE ELSE \A m \in bad : say("prop", m, {CHOOSE p \in wrong[m] \ allowed(m) : TRUE})
     /\ IF known = {} THEN TRUE ELSE \A m \in known : say("known", m, wrong[m])
Next == /\ i < Len(Rec.segs) /\ i' = i + 1 /\ UNCHANGED id
        /\ IF Rec.segs[i + 1][1] > UMaxPoint THEN Beyond(Rec.segs[i + 1]) ELSE Step(Rec.segs[i + 1])
Spec == Init /\ [][Next]_vars
=============================================================================
