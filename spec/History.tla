------------------------------- MODULE History -------------------------------
(* Trace validation of histories of operations on iterators. A record is a   *)
(* pattern with histories: kind ("a", "t", "p": search_all, tokenize, split  *)
(* of one subject; "m", "s", "w" with multi = 1: a range of subjects piped   *)
(* into match, search, starts_with), mode, subject, and the operations with  *)
(* what they returned:                                                       *)
(*   n a    slot a := begin           c a b   slot b := slot a               *)
(*   i a    ++slot a                  p a b   slot b := slot a ++            *)
(*   d a r  *slot a is r              e a v   slot a compared with the end   *)
(*   q a b ... slot a compared with slot b: =, /=, and <, >, <=, >=          *)
(* The state is what every slot holds; one operation is one step.            *)
EXTENDS Match, Iterate, TLC, Json, IOUtils

ASSUME "TRACE" \in DOMAIN IOEnv
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
NR == Len(TraceLog)

VARIABLES id, h,    \* which record, which of its histories
          l,        \* next operation
          pat,
          slots,    \* iterators
          bad
vars == <<id, h, l, pat, slots, bad>>

Rec == TraceLog[id]
Ev == Rec.ev[h]                      \* <<kind, mode, subject, log>>
Log == Ev[4]
Opts(mode) == [ml |-> mode % 2 = 1, ci |-> mode \div 2 = 1]
O == Opts(Ev[2])
Multi == Rec.multi = 1
S == Rec.subj[Ev[3] + 1]
C == Code(S)
NoIter == [none |-> TRUE]

Init ==
  /\ id \in 1..NR
  /\ h \in 1..Len(TraceLog[id].ev)
  /\ l = 1 /\ bad = 0
  /\ slots = [i \in 1..3 |-> NoIter]
  /\ pat = LET r == Parse(TraceLog[id].pat)
           IN [ok |-> r.ok, nc |-> r.nc, x |-> IF r.ok THEN Resolve(r.x, r.names) ELSE Eps]

\* --- the iterators as machines: all of them have the field res
FindFor(kind, p) == IF kind = "t" THEN MatchAt(C, pat, O, p) ELSE SearchFrom(C, pat, O, p)
ResultOf(i) == LET c == Code(Rec.subj[i + 1]) IN
  CASE Ev[1] = "m" -> WholeMatch(c, pat, O)
    [] Ev[1] = "s" -> SearchFrom(c, pat, O, 0)
    [] Ev[1] = "w" -> MatchAt(c, pat, O, 0)
RECURSIVE NextHit(_)
NextHit(i) == IF i >= Len(Rec.subj) THEN [cur |-> Len(Rec.subj), res |-> <<>>]
              ELSE LET r == ResultOf(i) IN IF r # <<>> THEN [cur |-> i, res |-> <<i, r>>] ELSE NextHit(i + 1)
Begin1 == IF Multi THEN NextHit(0)
          ELSE IF Ev[1] = "p" THEN SplitBegin(LAMBDA p : FindFor("p", p), C.n, pat.nc)
          ELSE AllBegin(LAMBDA p : FindFor(Ev[1], p))
Advance(st) == IF Multi THEN NextHit(st.cur + 1)
               ELSE IF Ev[1] = "p" THEN SplitNext(LAMBDA p : FindFor("p", p), C.n, pat.nc, st)
               ELSE AllNext(LAMBDA p : FindFor(Ev[1], p), C.n, st)
AtEnd(st) == st.res = <<>>

Op == Log[l]
Bit(b) == IF b THEN 1 ELSE 0
Is(o) == l <= Len(Log) /\ Op[1] = o
Good(ok, exp) == /\ bad' = IF ok THEN bad ELSE bad + 1
                 /\ ~ok => PrintT(<<"REPORT", "call", Rec.id, h, ToJson(<<l, Op, exp>>)>>)
Go == l' = l + 1 /\ UNCHANGED <<id, h, pat>>

New == Is("n") /\ slots' = [slots EXCEPT ![Op[2]] = Begin1] /\ UNCHANGED bad /\ Go
Copy == Is("c") /\ slots' = [slots EXCEPT ![Op[3]] = slots[Op[2]]] /\ UNCHANGED bad /\ Go
Increment == Is("i") /\ slots' = [slots EXCEPT ![Op[2]] = Advance(@)] /\ Good(Op[4] = 0, 0) /\ Go
PostIncrement ==
  /\ Is("p") /\ UNCHANGED bad /\ Go
  /\ slots' = LET old == slots[Op[2]] moved == [slots EXCEPT ![Op[2]] = Advance(@)]
              IN IF Op[2] = Op[3] THEN slots ELSE [moved EXCEPT ![Op[3]] = old]
Deref == Is("d") /\ Good(slots[Op[2]].res = Op[4], slots[Op[2]].res) /\ UNCHANGED slots /\ Go
CompareEnd == LET e == Bit(AtEnd(slots[Op[2]])) IN
  Is("e") /\ Good(<<Op[4], Op[5], Op[6], Op[7]>> = <<e, e, 1 - e, 1 - e>>, e) /\ UNCHANGED slots /\ Go
\* two iterators are equal exactly if they are at the same result, or both of them at the end (C23); their
\* order is the one of their places in the subject
Compare == LET a == slots[Op[2]] b == slots[Op[3]] IN
  /\ Is("q") /\ UNCHANGED slots /\ Go
  /\ Good(/\ Op[4] = Bit(a = b) /\ Op[5] = Bit(a # b)
          /\ Len(Op) > 5 => IF a = b THEN <<Op[6], Op[7], Op[8], Op[9]>> = <<0, 0, 1, 1>>
                            ELSE a.cur # b.cur => /\ Op[6] = Bit(a.cur < b.cur) /\ Op[7] = Bit(a.cur > b.cur)
                                                  /\ Op[8] = Bit(a.cur <= b.cur) /\ Op[9] = Bit(a.cur >= b.cur),
          <<Bit(a = b), Bit(a.cur < b.cur), Bit(a.cur > b.cur)>>)

Next == New \/ Copy \/ Increment \/ PostIncrement \/ Deref \/ CompareEnd \/ Compare
Spec == Init /\ [][Next]_vars

\* an operation on the end of a range never happens; every operation was understood
Sane == l <= Len(Log) => Op[1] \in {"n", "c", "i", "p", "d", "e", "q"}
=============================================================================
