----------------------------- MODULE AccessTrace -----------------------------
(* Recorded looks at results (harness/access.hpp). A record is one pattern   *)
(* [id, pat, subj, u8, ev]; an event <<op, mode, subject, looks>> where looks*)
(* is a sequence with one element per result:                                *)
(*   spans, free, bound  the captures by get<N>, ctre::get<N>, bindings      *)
(*   count               the number of captures, twice                       *)
(*   names               <<name, span>>                                      *)
(*   views               the accessors of every capture, then of the result  *)
(* or, with a fifth element "constant", what was seen in a constant          *)
(* expression: a probe and 12 numbers per capture.                           *)
EXTENDS Access, Trace

Wide(k, c) == IF c = <<>> THEN 0
              ELSE IF ~IsUtf8 THEN c[2] - c[1]
              ELSE LET o == Offsets(Rec.subj[k + 1]) IN Cardinality({i \in 1..Len(o) : o[i] >= c[1] /\ o[i] < c[2]})

NamesOf == Parse(Rec.pat).names
\* r: the captures, <<>> if there is no match
Look(k, r, x) ==
  LET S == Rec.subj[k + 1]
      nc == pat.nc + 1
      cap(i) == IF r = <<>> THEN <<>> ELSE r[i]
      caps == [i \in 1..nc |-> cap(i)]
  IN (IF x.spans # caps THEN {"get"} ELSE {})
     \cup (IF x.free # caps THEN {"ctre::get"} ELSE {})
     \cup (IF r # <<>> /\ nc <= 4 /\ x.bound # caps THEN {"bindings"} ELSE {})
     \cup (IF x.count # <<nc, nc>> THEN {"count"} ELSE {})
     \cup (IF \E i \in 1..Len(x.names) : LET g == GroupOf(NamesOf, x.names[i][1]) IN g = -1 \/ cap(g + 1) # x.names[i][2] THEN {"name"} ELSE {})
     \cup (IF Len(x.views) # nc + 1 THEN {"views"} ELSE {})
     \cup UNION {Wrong(S, caps[i], i - 1, Wide(k, caps[i]), x.views[i]) : i \in 1..nc}
     \cup Wrong(S, caps[1], 0, Wide(k, caps[1]), x.views[nc + 1])
     \cup (IF \E i \in 1..nc : ~Complete(caps[i], x.views[i]) THEN {"span"} ELSE {})

Constant(k, r, v) ==
  LET S == Rec.subj[k + 1] IN
  IF Len(v) # pat.nc + 2 THEN {"count"}
  ELSE UNION {LET c == IF r = <<>> THEN <<>> ELSE r[i] f == v[i + 1] same == B(c # <<>> /\ Text(S, c) = v[1]) IN
              (IF f[1] # B(c # <<>>) THEN {"ok"} ELSE {})
              \cup (IF f[2] # Len(Text(S, c)) THEN {"size"} ELSE {})
              \cup (IF <<f[3], f[4], f[5], f[6]>> # <<same, same, 1 - same, 1 - same>> THEN {"cmp"} ELSE {})
              \cup (IF c # <<>> /\ <<f[7], f[8], f[9], f[10], f[11], f[12]>> # <<c[1], c[2], c[1], c[2] - c[1], c[1], 1>> THEN {"view"} ELSE {})
              : i \in 1..(pat.nc + 1)}

Differs(r, ev) ==
  IF Len(ev) = 5 THEN Constant(ev[3], r, ev[4])
  ELSE LET rs == IF ev[1] \in {"a", "t", "p"} THEN r ELSE <<r>> IN
       IF Len(rs) # Len(ev[4]) THEN {"number of results"}
       ELSE UNION {Look(ev[3], rs[i], ev[4][i]) : i \in 1..Len(rs)}
Faults(ev) == LET T == Subject(ev[3]) IN [i \in 1..4 |-> Differs(In(Variants(T)[i], ev), ev)]

Seeing ==
  /\ phase = "calls"
  /\ LET ev == Rec.ev[l]
         f == Faults(ev)
         good == \E i \in 1..4 : f[i] = {}
     IN /\ bad' = IF good THEN bad ELSE bad + 1
        /\ ~good => Report("call", ev, f[1])
        /\ (good /\ Rec.kf = 1 /\ Len(ev) = 4 /\ \E i \in 1..Len(ev[4]) : \E k \in 1..Len(ev[4][i].views) :
              Deviation(IF k > Len(ev[4][i].spans) THEN ev[4][i].spans[1] ELSE ev[4][i].spans[k], ev[4][i].views[k])) => Report("known", ev, {})
  /\ l' = l + 1
  /\ phase' = IF l = Len(Rec.ev) THEN "done" ELSE "calls"
  /\ UNCHANGED <<id, pat>>
NextLook == Load \/ Seeing
LookSpec == Init /\ [][NextLook]_vars
=============================================================================
