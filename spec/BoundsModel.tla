----------------------------- MODULE BoundsModel -----------------------------
(* A decoder which works on single units, one operation at a time, on every  *)
(* text of at most MaxN units, complete or not, from every position it can   *)
(* reach in either direction: every operation is legal (Bounds), and what it *)
(* decodes is what Utf8 says.                                                *)
EXTENDS Bounds, Utf8, TLC
CONSTANTS Alphabet, MaxN
VARIABLES text, p,   \* the position of the caller
          job,       \* what is being done: "idle", "ahead", "back", "decode"
          q, k, v,   \* the decoder's cursor, units still to come / distance, value so far
          did        \* the last operation on the subject
vars == <<text, p, job, q, k, v, did>>
n == Len(text)
U(i) == text[i + 1]
None == <<>>
Init == text \in UNION {[1..m -> Alphabet] : m \in 0..MaxN} /\ p \in {0, Len(text)} /\ job = "idle" /\ q = 0 /\ k = 0 /\ v = -1 /\ did = None
Back2(T, f, d) == IF Follow(T[f + 1]) >= d THEN f ELSE f + d

\* the caller looks whether there is something before it starts
StartAhead == job = "idle" /\ p < n /\ job' = "ahead" /\ k' = Follow(U(p)) /\ q' = p + 1 /\ did' = <<Inc, p, 0>> /\ UNCHANGED <<text, p, v>>
Ahead == /\ job = "ahead"
         /\ IF k > 0 /\ q # n
            THEN IF Trailing(U(q)) THEN q' = q + 1 /\ k' = k - 1 /\ did' = <<Inc, q, 0>> /\ UNCHANGED <<text, p, job, v>>
                 ELSE did' = <<Read, q, 0>> /\ job' = "idle" /\ p' = q /\ v' = -1 /\ UNCHANGED <<text, q, k>>
            ELSE did' = <<Same, q, n>> /\ job' = "idle" /\ p' = q /\ v' = -1 /\ UNCHANGED <<text, q, k>>
StartBack == job = "idle" /\ p > 0 /\ job' = "back" /\ k' = 0 /\ q' = p - 1 /\ did' = <<Dec, p, 0>> /\ UNCHANGED <<text, p, v>>
Behind == /\ job = "back"
          /\ IF q # 0 /\ k < 3 /\ Trailing(U(q)) THEN q' = q - 1 /\ k' = k + 1 /\ did' = <<Dec, q, 0>> /\ UNCHANGED <<text, p, job, v>>
             ELSE did' = <<Read, q, 0>> /\ job' = "idle" /\ p' = Back2(text, q, k) /\ v' = -1 /\ UNCHANGED <<text, q, k>>
Lead(u) == IF u < 128 THEN u ELSE CASE Follow(u) = 1 -> u - 192 [] Follow(u) = 2 -> u - 224 [] Follow(u) = 3 -> u - 240 [] OTHER -> Mojibake
StartDecode == /\ job = "idle" /\ p < n /\ v = -1
               /\ did' = <<Read, p, 0>> /\ q' = p /\ k' = Follow(U(p)) /\ UNCHANGED <<text, p>>
               /\ IF k' = 0 THEN v' = Lead(U(p)) /\ job' = "idle" ELSE v' = Lead(U(p)) /\ job' = "fits"
\* whether the sequence fits is asked by a difference, not by moving there
Fits == /\ job = "fits" /\ did' = <<Order, n, p>> /\ UNCHANGED <<text, p, q, k>>
        /\ IF n - p <= k THEN v' = Mojibake /\ job' = "idle" ELSE v' = v /\ job' = "decode"
Decode == /\ job = "decode" /\ UNCHANGED <<text, p>>
          /\ IF k = 0 THEN job' = "idle" /\ UNCHANGED <<q, k, v, did>>
             ELSE /\ did' = <<Index, q, 1>>
                  /\ IF Trailing(U(q + 1)) THEN v' = v * 64 + (U(q + 1) - 128) /\ q' = q + 1 /\ k' = k - 1 /\ job' = "decode"
                     ELSE v' = Mojibake /\ job' = "idle" /\ UNCHANGED <<q, k>>
Next == StartAhead \/ Ahead \/ StartBack \/ Behind \/ StartDecode \/ Fits \/ Decode
Spec == Init /\ [][Next]_vars /\ WF_vars(Ahead \/ Behind \/ Fits \/ Decode)

AllLegal == did = None \/ Legal(n, did[1], did[2], did[3])
Kept == Inside(n, p) /\ Inside(n, q)
AtMarks == job = "idle" => p \in {0, n} \cup {Steps(text)[i].b : i \in 1..Len(Steps(text))}
Decoded == (job = "idle" /\ v # -1) => v = Value(text, p)
Finishes == (job # "idle") ~> (job = "idle")
=============================================================================
