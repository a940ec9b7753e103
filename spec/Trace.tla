-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded call of the real library must be a       *)
(* behaviour of the specification. One line of the trace file is one         *)
(* pattern with the calls made with it:                                      *)
(*   id, pat (code points), acc (1: accepted as a pattern, 0: rejected),     *)
(*   subj (subjects, sequences of code units), ev (calls)                    *)
(* A call is <<op, mode, subject, result>>; mode = multiline + 2 * case-     *)
(* insensitive; result as in Match (search-like) or a sequence of results.   *)
(*                                                                           *)
(* A call the specification does not allow is reported and the validation    *)
(* goes on behind it, so that one violation does not hide another one.       *)
EXTENDS Match, Iterate, Utf8, TLC, Json, IOUtils

ASSUME "TRACE" \in DOMAIN IOEnv
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
N == Len(TraceLog)

VARIABLES id,      \* which pattern
          phase,   \* "load", "calls" or "done"
          pat,     \* the parsed pattern [ok, nc, x]
          l,       \* next call
          bad      \* calls the specification does not allow

vars == <<id, phase, pat, l, bad>>
Rec == TraceLog[id]

Init == id \in 1..N /\ phase = "load" /\ pat = [ok |-> FALSE, nc |-> 0, x |-> Eps] /\ l = 1 /\ bad = 0

Opts(mode) == [ml |-> mode % 2 = 1, ci |-> mode \div 2 = 1]

\* the result the specification gives in context c
Expected(c, op, o) ==
  CASE op = "m" -> WholeMatch(c, pat, o)
    [] op = "s" -> SearchFrom(c, pat, o, 0)
    [] op = "w" -> MatchAt(c, pat, o, 0)
    [] op = "a" -> All(LAMBDA p : SearchFrom(c, pat, o, p), c.n)
    [] op = "t" -> All(LAMBDA p : MatchAt(c, pat, o, p), c.n)
    [] op = "p" -> Split(LAMBDA p : SearchFrom(c, pat, o, p), c.n, pat.nc)

\* a UTF-8 subject (u8 = 1) is its code points; positions are those of the code units
IsUtf8 == "u8" \in DOMAIN Rec /\ Rec.u8 = 1
Subject(k) == IF IsUtf8 THEN Points(Rec.subj[k + 1]) ELSE Rec.subj[k + 1]
Units(k, op, r) ==
  IF ~IsUtf8 THEN r
  ELSE LET o == Offsets(Rec.subj[k + 1])
           span(x) == IF x = <<>> THEN x ELSE <<o[x[1] + 1], o[x[2] + 1]>>
           res(x) == [i \in 1..Len(x) |-> span(x[i])]
       IN IF op \in {"a", "t", "p"} THEN [i \in 1..Len(r) |-> res(r[i])] ELSE res(r)

\* combinations of the known deviations, the implementation's own one first
Variants(S) == <<Ctx(S, TRUE, TRUE), Ctx(S, FALSE, FALSE), Ctx(S, TRUE, FALSE), Ctx(S, FALSE, TRUE)>>

\* what of a result is compared: all captures, or (PROJ = extent) the whole match only
Extent == "PROJ" \in DOMAIN IOEnv /\ IOEnv.PROJ = "extent"
One(r) == IF Extent /\ r # <<>> THEN <<r[1]>> ELSE r
Seen(op, r) == IF op \in {"a", "t", "p"} THEN [i \in 1..Len(r) |-> One(r[i])] ELSE One(r)

\* op "u": which units of the subject match when they are the whole subject
UnitsAccepted(ev) == LET o == Opts(ev[2]) IN
  SelectSeq(Rec.subj[ev[3] + 1], LAMBDA u : WholeMatch(Code(<<u>>), pat, o) # NoMatch)

In(c, ev) == Units(ev[3], ev[1], Expected(c, ev[1], Opts(ev[2])))
Allowed(ev) == IF ev[1] = "u" THEN UnitsAccepted(ev) = ev[4] ELSE LET T == Subject(ev[3])
               IN \E i \in 1..4 : Seen(ev[1], In(Variants(T)[i], ev)) = Seen(ev[1], ev[4])

\* only with deviations: the call shows a known finding
Deviates(ev) == In(Ideal(Subject(ev[3])), ev) # ev[4]

Report(what, ev, exp) == PrintT(<<"REPORT", what, Rec.id, l, ToJson(exp)>>)

\* the pattern is compiled: accepted exactly if it is a sentence of the language
Load ==
  /\ phase = "load"
  /\ LET r == Parse(Rec.pat)
         props == IF r.ok THEN PropKinds(r.x) ELSE {}
         ok == r.ok /\ RefsExist(r.x, r.names) /\ "no" \notin props
         p == [ok |-> ok, nc |-> r.nc, x |-> IF r.ok THEN Resolve(r.x, r.names) ELSE Eps]
         mismatch == (Rec.acc = 1) # ok /\ ~(Rec.acc = 0 /\ ok /\ (BehindLimit(r.x, FALSE) \/ "any" \in props))
     IN /\ pat' = p
        /\ bad' = IF mismatch THEN 1 ELSE 0
        /\ mismatch => PrintT(<<"REPORT", "accept", Rec.id, 0, ToJson(ok)>>)
        /\ phase' = IF mismatch \/ Len(Rec.ev) = 0 THEN "done" ELSE "calls"
  /\ UNCHANGED <<id, l>>

\* one call returned
Call ==
  /\ phase = "calls"
  /\ LET ev == Rec.ev[l]
         good == Allowed(ev)
     IN /\ bad' = IF good THEN bad ELSE bad + 1
        /\ ~good => Report("call", ev, IF ev[1] = "u" THEN UnitsAccepted(ev) ELSE In(Code(Subject(ev[3])), ev))
        /\ (good /\ Rec.kf = 1 /\ Deviates(ev)) => Report("known", ev, In(Ideal(Subject(ev[3])), ev))
  /\ l' = l + 1
  /\ phase' = IF l = Len(Rec.ev) THEN "done" ELSE "calls"
  /\ UNCHANGED <<id, pat>>

Next == Load \/ Call
Spec == Init /\ [][Next]_vars

\* every call was looked at
Calls == FoldLeft(LAMBDA a, r : a + Len(r.ev), 0, TraceLog)
Validated == TLCGet("stats").distinct <= 2 * N + Calls
=============================================================================
