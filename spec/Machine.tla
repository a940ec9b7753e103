------------------------------- MODULE Machine -------------------------------
(* The matcher as a machine: one action per construct, an explicit list of   *)
(* things to do (the continuation), and a stack of choice points to go back  *)
(* to. It is an independent, operational statement of the semantics Match    *)
(* gives denotationally; the invariant Refines says that the two agree, the  *)
(* other invariants are what the listed properties demand of every state.    *)
(*                                                                           *)
(* Patterns come from a file (environment PATTERNS, one JSON record per      *)
(* line: pat = code points); subjects are all words up to MaxLen over        *)
(* Alphabet. Every pattern is run on every subject, as a whole-subject match *)
(* and as a search, in the four mode combinations of the record's modes.     *)
EXTENDS Match, TLC, Json, IOUtils

CONSTANTS Alphabet, MaxLen, Atomic, Leak

ASSUME "PATTERNS" \in DOMAIN IOEnv
PatternLog == ndJsonDeserialize(IOEnv.PATTERNS)

Parsed == [i \in 1..Len(PatternLog) |->
             LET r == Parse(PatternLog[i].pat)
             IN [ok |-> r.ok /\ RefsExist(r.x, r.names), nc |-> r.nc,
                 x |-> IF r.ok THEN Resolve(r.x, r.names) ELSE Eps]]

Words == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}

VARIABLES in,       \* the call: [pid, S, op, ci, ml]
          start,    \* where this attempt started
          todo,     \* what is still to be matched
          pos, caps, ci, ml,
          alts,     \* choice points: saved [todo, pos, caps, ci, ml]
          failing,  \* the current path failed
          res       \* "running", or the result

vars == <<in, start, todo, pos, caps, ci, ml, alts, failing, res>>

C == Ctx(in.S, Atomic, Leak)
N == Len(in.S)
Pat == Parsed[in.pid]
NoCaps == [i \in 1..Pat.nc |-> <<>>]
Running == [tag |-> "running"]
Done(r) == [tag |-> "done", v |-> r]

Init ==
  /\ in \in [pid : {i \in 1..Len(PatternLog) : Parsed[i].ok}, S : Words, op : {"m", "s"}, mode : 0..3]
  /\ in.mode \in {PatternLog[in.pid].modes[k] : k \in 1..Len(PatternLog[in.pid].modes)}
  /\ start = 0 /\ pos = 0
  /\ caps = NoCaps
  /\ ci = (in.mode \div 2 = 1) /\ ml = (in.mode % 2 = 1)
  /\ todo = <<Pat.x, [t |-> "end"]>>
  /\ alts = <<>> /\ failing = FALSE /\ res = Running

Saved(td) == [todo |-> td, pos |-> pos, caps |-> caps, ci |-> ci, ml |-> ml]
KeepAlts(h) == SubSeq(alts, 1, h)
Top == Head(todo)
Rest1 == Tail(todo)
Active(kind) == res = Running /\ ~failing /\ todo # <<>> /\ Top.t = kind
Same == UNCHANGED <<in, start, res>>
Cur == [p |-> pos, caps |-> caps, ci |-> ci, ml |-> ml]

Fails == failing' = TRUE /\ UNCHANGED <<todo, pos, caps, ci, ml, alts>>
Goes(td, p) == failing' = FALSE /\ todo' = td /\ pos' = p /\ UNCHANGED <<caps, ci, ml, alts>>

\* --- one character, zero-width tests, references ------------------------------
Character ==
  /\ \E k \in {"c", "r", "cls", "prop", "set"} : Active(k)
  /\ IF pos < N /\ Accepts(Top, in.S[pos + 1], ci) THEN Goes(Rest1, pos + 1) ELSE Fails
  /\ Same
AnyCharacter ==
  /\ Active("any")
  /\ IF pos < N /\ ~(ml /\ in.S[pos + 1] = LF) THEN Goes(Rest1, pos + 1) ELSE Fails
  /\ Same
Assertion ==
  /\ \E k \in {"bos", "eos", "bol", "eol", "eosl", "wb"} : Active(k)
  /\ IF AssertHolds(C, Top, Cur) THEN Goes(Rest1, pos) ELSE Fails
  /\ Same
BackReference ==
  /\ Active("bref")
  /\ IF Top.i >= 1 /\ Top.i <= Len(caps) /\ caps[Top.i] # <<>> /\ SameText(C, Cur, caps[Top.i][1], caps[Top.i][2])
     THEN Goes(Rest1, pos + caps[Top.i][2] - caps[Top.i][1]) ELSE Fails
  /\ Same
ModeSwitch ==
  /\ Active("mode")
  /\ LET s == FoldLeft(SwitchMode, Cur, Top.v) IN ci' = s.ci /\ ml' = s.ml
  /\ todo' = Rest1 /\ UNCHANGED <<pos, caps, alts, failing>> /\ Same

\* --- structure -------------------------------------------------------------
Empty == Active("eps") /\ Goes(Rest1, pos) /\ Same
Sequencing == Active("seq") /\ Goes(Top.xs \o Rest1, pos) /\ Same
Alternation ==
  /\ Active("alt")
  /\ todo' = <<Top.xs[1]>> \o Rest1
  /\ alts' = IF Len(Top.xs) = 1 THEN alts
             ELSE Append(alts, Saved(<<[t |-> "alt", xs |-> Tail(Top.xs)]>> \o Rest1))
  /\ UNCHANGED <<pos, caps, ci, ml, failing>> /\ Same
ScopeMark == IF Leak THEN <<>> ELSE <<[t |-> "scope", ci |-> ci, ml |-> ml]>>
EnterGroup == Active("grp") /\ Goes(<<Top.x>> \o ScopeMark \o Rest1, pos) /\ Same
EndScope ==
  /\ Active("scope") /\ ci' = Top.ci /\ ml' = Top.ml
  /\ todo' = Rest1 /\ UNCHANGED <<pos, caps, alts, failing>> /\ Same
OpenCapture ==
  /\ Active("cap")
  /\ Goes(<<Top.x, [t |-> "close", i |-> Top.i, b |-> pos]>> \o ScopeMark \o Rest1, pos) /\ Same
CloseCapture ==
  /\ Active("close")
  /\ caps' = [caps EXCEPT ![Top.i] = <<Top.b, pos>>]
  /\ todo' = Rest1 /\ UNCHANGED <<pos, ci, ml, alts, failing>> /\ Same

\* --- loops ---------------------------------------------------------------------
IterMark(x, k, must, h) == [t |-> "iter", x |-> x, k |-> k, must |-> must, p |-> pos, h |-> h, ci |-> ci, ml |-> ml]
LoopFrom(x, k) == [t |-> "loop", x |-> x, k |-> k]
EnterLoop ==
  /\ Active("rep")
  /\ IF Top.b # Inf /\ Top.a > Top.b THEN Fails
     ELSE LET x == Top IN
          Goes(<<LoopFrom(x, 0)>> \o (IF x.m = "p" THEN <<[t |-> "cut", h |-> Len(alts), ci |-> ci, ml |-> ml]>> ELSE <<>>) \o Rest1, pos)
  /\ Same
RequiredIteration ==
  /\ Active("loop") /\ Top.k < Top.x.a
  /\ Goes(<<Top.x.x, IterMark(Top.x, Top.k, FALSE, Len(alts))>> \o Rest1, pos) /\ Same
LoopFull == Active("loop") /\ Top.k >= Top.x.a /\ Top.x.b # Inf /\ Top.k >= Top.x.b /\ Goes(Rest1, pos) /\ Same
CanIterate == Active("loop") /\ Top.k >= Top.x.a /\ (Top.x.b = Inf \/ Top.k < Top.x.b)
GreedyIteration ==
  /\ CanIterate /\ Top.x.m # "l"
  /\ alts' = Append(alts, Saved(Rest1))
  /\ todo' = <<Top.x.x, IterMark(Top.x, Top.k, TRUE, Len(alts) + 1)>> \o Rest1
  /\ UNCHANGED <<pos, caps, ci, ml, failing>> /\ Same
LazyExit ==
  /\ CanIterate /\ Top.x.m = "l"
  /\ alts' = Append(alts, Saved(<<Top.x.x, IterMark(Top.x, Top.k, TRUE, Len(alts))>> \o Rest1))
  /\ todo' = Rest1
  /\ UNCHANGED <<pos, caps, ci, ml, failing>> /\ Same
EndIteration ==
  /\ Active("iter")
  /\ IF Top.must /\ pos = Top.p THEN Fails
     ELSE /\ todo' = <<LoopFrom(Top.x, Top.k + 1)>> \o Rest1
          /\ alts' = IF Atomic THEN KeepAlts(Top.h) ELSE alts
          /\ ci' = Top.ci /\ ml' = Top.ml
          /\ UNCHANGED <<pos, caps, failing>>
  /\ Same

\* --- atomic groups and lookarounds --------------------------------------------
EnterAtomic ==
  /\ Active("atom")
  /\ Goes(<<Top.x, [t |-> "cut", h |-> Len(alts), ci |-> ci, ml |-> ml]>> \o Rest1, pos) /\ Same
CutAlternatives ==
  /\ Active("cut") /\ alts' = KeepAlts(Top.h) /\ ci' = Top.ci /\ ml' = Top.ml
  /\ todo' = Rest1 /\ UNCHANGED <<pos, caps, failing>> /\ Same
LookMark(h) == [t |-> "lookend", n |-> Top.n, h |-> h, p |-> pos, ci |-> ci, ml |-> ml]
\* for a lookbehind: every start from the current position back to the beginning
BehindFrom(x, j, mark) == <<[t |-> "behind", x |-> x, j |-> j, p |-> pos], mark>>
EnterLook ==
  /\ Active("look")
  /\ LET h == Len(alts)
         body == IF Top.d = "a" THEN <<Top.x, LookMark(h)>> ELSE BehindFrom(Top.x, pos, LookMark(h))
     IN /\ alts' = IF Top.n THEN Append(alts, Saved(Rest1)) ELSE alts
        /\ todo' = body \o Rest1
  /\ UNCHANGED <<pos, caps, ci, ml, failing>> /\ Same
LookBehindStart ==
  /\ Active("behind")
  /\ alts' = IF Top.j = 0 THEN alts ELSE Append(alts, Saved(<<[Top EXCEPT !.j = @ - 1]>> \o Rest1))
  /\ todo' = <<Top.x, [t |-> "at", p |-> Top.p]>> \o Rest1
  /\ pos' = Top.j
  /\ UNCHANGED <<caps, ci, ml, failing>> /\ Same
AtPosition == Active("at") /\ (IF pos = Top.p THEN Goes(Rest1, pos) ELSE Fails) /\ Same
LookSucceeds ==
  /\ Active("lookend")
  /\ alts' = KeepAlts(Top.h)
  /\ IF Top.n THEN failing' = TRUE /\ UNCHANGED <<todo, pos, caps, ci, ml>>
     ELSE /\ pos' = Top.p /\ ci' = Top.ci /\ ml' = Top.ml /\ todo' = Rest1
          /\ UNCHANGED <<caps, failing>>
  /\ Same

\* --- control -------------------------------------------------------------------
Backtrack ==
  /\ res = Running /\ failing /\ alts # <<>>
  /\ LET a == alts[Len(alts)] IN
     todo' = a.todo /\ pos' = a.pos /\ caps' = a.caps /\ ci' = a.ci /\ ml' = a.ml
  /\ alts' = KeepAlts(Len(alts) - 1) /\ failing' = FALSE /\ Same
NextStart ==
  /\ res = Running /\ failing /\ alts = <<>> /\ in.op = "s" /\ start < N
  /\ start' = start + 1 /\ pos' = start + 1
  /\ caps' = NoCaps /\ ci' = (in.mode \div 2 = 1) /\ ml' = (in.mode % 2 = 1)
  /\ todo' = <<Pat.x, [t |-> "end"]>> /\ failing' = FALSE
  /\ UNCHANGED <<in, alts, res>>
NotFound ==
  /\ res = Running /\ failing /\ alts = <<>> /\ ~(in.op = "s" /\ start < N)
  /\ res' = Done(NoMatch)
  /\ UNCHANGED <<in, start, todo, pos, caps, ci, ml, alts, failing>>
Found ==
  /\ Active("end")
  /\ IF in.op = "m" /\ pos # N
     THEN Fails /\ UNCHANGED <<in, start, res>>
     ELSE /\ res' = Done(Result(start, Cur))
          /\ UNCHANGED <<in, start, todo, pos, caps, ci, ml, alts, failing>>

Next == \/ Character \/ AnyCharacter \/ Assertion \/ BackReference \/ ModeSwitch
        \/ Empty \/ Sequencing \/ Alternation \/ EnterGroup \/ EndScope \/ OpenCapture \/ CloseCapture
        \/ EnterLoop \/ RequiredIteration \/ LoopFull \/ GreedyIteration \/ LazyExit \/ EndIteration
        \/ EnterAtomic \/ CutAlternatives \/ EnterLook \/ LookBehindStart \/ AtPosition \/ LookSucceeds
        \/ Backtrack \/ NextStart \/ NotFound \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- what is checked -------------------------------------------------------
IsSpan(c) == c = <<>> \/ (Len(c) = 2 /\ 0 <= c[1] /\ c[1] <= c[2] /\ c[2] <= N)
\* C19: nothing outside of the subject
InBounds == /\ 0 <= start /\ start <= pos + N /\ 0 <= pos /\ pos <= N
            /\ \A i \in 1..Len(alts) : 0 <= alts[i].pos /\ alts[i].pos <= N
\* C03: captures are always spans of the subject
CapturesAreSpans == \A i \in 1..Len(caps) : IsSpan(caps[i])
\* C11: exactly one action is enabled until the end (no deadlock), and the end is reached
Progress == res = Running => ENABLED Next
Terminates == <>(res # Running)
\* C01, C02, C04, C05, C06, C07, C09: the result is the one of the semantics
Expected == LET o == [ci |-> in.mode \div 2 = 1, ml |-> in.mode % 2 = 1]
            IN IF in.op = "m" THEN WholeMatch(C, Pat, o) ELSE SearchFrom(C, Pat, o, 0)
Refines == res # Running => res.v = Expected
\* a result is coherent with the call
ResultShape ==
  res # Running /\ res.v # NoMatch =>
    /\ Len(res.v) = Pat.nc + 1
    /\ \A i \in 1..Len(res.v) : IsSpan(res.v[i])
    /\ res.v[1] # <<>>
    /\ in.op = "m" => res.v[1] = <<0, N>>
=============================================================================
