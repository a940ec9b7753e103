---------------------------- MODULE LiteralModel ----------------------------
(* A text is written unit by unit in a type; reading back gives the text, at *)
(* every whole number of characters and nowhere else.                        *)
EXTENDS Literal, TLC
CONSTANTS MaxN
Corners == {0, 65, 127, 128, 233, 255, 256, 2047, 2048, 8364, 55295, 57344, 65533, 65535, 65536, 128512, 1114111}
Types == {"n", "8", "16", "32", "w"}
VARIABLES ty, text, out, rest
vars == <<ty, text, out, rest>>
TypesOf(t) == IF \A i \in 1..Len(t) : t[i] < 256 THEN Types ELSE Types \ {"n"}
Init == /\ text \in UNION {[1..n -> Corners] : n \in 0..MaxN} /\ ty \in TypesOf(text) /\ out = <<>> /\ rest = Write(ty, text)
Next == rest # <<>> /\ out' = Append(out, Head(rest)) /\ rest' = Tail(rest) /\ UNCHANGED <<ty, text>>
Spec == Init /\ [][Next]_vars
\* what has been written so far denotes a beginning of the text, and all of it at the end
ReadsBack == rest = <<>> => Kind(ty, out) = "good" /\ Denoted(ty, out) = text
Prefixes == Kind(ty, out) = "good" => \E k \in 0..Len(text) : Denoted(ty, out) = SubSeq(text, 1, k) /\ Write(ty, SubSeq(text, 1, k)) = out
NeverBad == Kind(ty, out) # "bad"
\* different texts are written differently
OneText == \A v \in Corners : rest = <<>> /\ text # <<>> /\ v # text[Len(text)] /\ (ty = "n" => v < 256)
             => Write(ty, SubSeq(text, 1, Len(text) - 1) \o <<v>>) # out
\* a change of one unit is another text or no text
=============================================================================
