------------------------------ MODULE LL1Model ------------------------------
(* Grammars of a file: the LL(1) ones among them, their tables, and the laws  *)
(* of the machine on every word of at most MaxN characters.                   *)
EXTENDS LL1, TLC, Json, IOUtils
CONSTANTS MaxN, MaxG
ASSUME TLCSet(11, TLCEval(JsonDeserialize(IOEnv.GRAMMARS)))
Gs == TLCGet(11)
ASSUME TLCSet(12, TLCEval([g \in {h \in 1..Len(Gs) : IsLL1(Gs[h])} |-> Table(Predict(Gs[g]))]))
Ts == TLCGet(12)
ASSUME \A g \in DOMAIN Ts : PrintT(<<"REPORT", "table", g, 0, ToJson([n \in DOMAIN Ts[g] |-> [c \in 1..NC + 1 |-> Ts[g][n][c - 1]]])>>)
Words == UNION {[1..n -> Chars] : n \in 0..MaxN}
ASSUME TLCSet(13, TLCEval({g \in DOMAIN Ts : Cardinality({h \in DOMAIN Ts : h < g}) < MaxG}))
VARIABLES g, w, m
vars == <<g, w, m>>
Init == g \in TLCGet(13) /\ w \in Words /\ m = Start
Next == m[4] = "run" /\ m' = Moved(Gs[g], Ts[g], w, m) /\ UNCHANGED <<g, w>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Top == <<<<"n", 1>>>>
(* the words of the grammar are accepted, and its actions happen in their order *)
Language == m[4] /= "run" => Parses(Gs[g], Top, w, 0, <<>>) = IF m[4] = "accept" THEN {m[3]} ELSE {}
(* no more is consumed than a word of the grammar begins with, and no less *)
FirstError == m[4] /= "run" => m[1] = Reach(Gs[g], Top, w, 0)
Consumed == m[4] = "accept" => m[1] = Len(w)
(* a position is behind what was noted *)
Ends == <>(m[4] /= "run")
=============================================================================
