------------------------------ MODULE GramTrace ------------------------------
(* The published grammar of patterns as it is written (spec/data/pcre.gram,  *)
(* without its actions): the set of all derivations which agree with what was *)
(* read so far is carried along, one character a step. Recorded runs of the   *)
(* engine with the table of the library: [id, w, c, p] - the text, is it      *)
(* correct, position - where the error is when it is not: the first character *)
(* which no sentence of the grammar has there.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
P == INSTANCE Parser
ASSUME TLCSet(11, TLCEval(JsonDeserialize(IOEnv.GRAM)))
(* nonterminals, each a sequence of alternatives, each a sequence of items:   *)
(* <<1, k>> nonterminal, <<0, c1, c2, ..>> one of these, <<2>> one not        *)
(* mentioned in the grammar                                                   *)
G == TLCGet(11).nts
ASSUME TLCSet(12, TLCEval({TLCGet(11).mentioned[i] : i \in 1..Len(TLCGet(11).mentioned)}))
Mentioned == TLCGet(12)
ASSUME TLCSet(13, TLCEval(ndJsonDeserialize(IOEnv.TRACE)))
Log == TLCGet(13)

Fits(x, c) == IF x[1] = 2 THEN c \notin Mentioned ELSE \E i \in 2..Len(x) : x[i] = c
(* nonterminals are replaced until every stack is empty or begins with a terminal *)
RECURSIVE Closure(_)
Closure(C) ==
  LET N == UNION {IF s # <<>> /\ s[1][1] = 1 THEN {G[s[1][2]][k] \o Tail(s) : k \in 1..Len(G[s[1][2]])} ELSE {s} : s \in C} IN
  IF N = C THEN C ELSE Closure(N)
First == Closure({<<<<1, 1>>>>})
ASSUME TLCSet(14, TLCEval(First))
Read(C, c) == Closure({Tail(s) : s \in {t \in C : t # <<>> /\ Fits(t[1], c)}})

VARIABLES id, i, C, d
vars == <<id, i, C, d>>
w == Log[id].w
Init == id \in 1..Len(Log) /\ i = 0 /\ C = TLCGet(14) /\ d = "run"
Take == /\ d = "run" /\ i < Len(w) /\ UNCHANGED <<id, d>>
        /\ C' = Read(C, w[i + 1]) /\ C' # {} /\ i' = i + 1
Stuck == IF i = Len(w) THEN TRUE ELSE Read(C, w[i + 1]) = {}
Decide == /\ d = "run" /\ Stuck /\ UNCHANGED <<id, i, C>>
          /\ d' = IF i = Len(w) /\ <<>> \in C THEN "accept" ELSE "reject"
Compare == /\ d \in {"accept", "reject"} /\ UNCHANGED <<id, i, C>>
           /\ d' = "done"
           /\ LET r == Log[id]
                  ok == IF d = "accept" THEN 1 ELSE 0
                  (* the two specifications of the language agree *)
                  agree == P!Parse(w).ok => d = "accept" IN
              IF ~agree THEN PrintT(<<"REPORT", "disagree", r.id, i, "0">>)
              ELSE IF r.c = ok /\ r.p = i THEN PrintT(<<"REPORT", "fine", r.id, i, "0">>)
              ELSE PrintT(<<"REPORT", "differs", r.id, i, ToJson(ok)>>)
Next == Take \/ Decide \/ Compare
Spec == Init /\ [][Next]_vars
=============================================================================
