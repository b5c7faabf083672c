------------------------------- MODULE MC_TextPairs -------------------------------
(* Equality that ignores case, and quotes.  Env: CFG [bytes, depth, pairs].             *)
EXTENDS Text, Json, IOUtils, Once
ASSUME Keep(25, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(25)
AsSet(s) == {s[i] : i \in 1..Len(s)}
Alphabet == AsSet(Cfg.bytes)
VARIABLES a, b, told
vars == <<a, b, told>>
PInit == told = FALSE /\ ((a = <<>> /\ b = <<>>) \/ (\E i \in 1..Len(Cfg.pairs) : a = Cfg.pairs[i][1] /\ b = Cfg.pairs[i][2])
                          \/ (\E x \in 0..255 : a = <<x>> /\ b = <<LowerByte(x)>>) \/ (\E x \in 0..255, y \in {10, 32, 64, 65, 90, 97, 128, 192, 224, 255} : a = <<x>> /\ b = <<y>>))
Clean(s) == \A i \in 1..Len(s) : s[i] \in Alphabet
GrowA == ~told /\ Clean(a) /\ Clean(b) /\ Len(a) < Cfg.depth /\ UNCHANGED <<b, told>> /\ \E x \in Alphabet : a' = Append(a, x)
GrowB == ~told /\ Clean(a) /\ Clean(b) /\ Len(b) < Cfg.depth /\ UNCHANGED <<a, told>> /\ \E x \in Alphabet : b' = Append(b, x)
Quote(s) == <<39, 39, 39>> \o s \o <<39, 39, 39>>
Tell == ~told /\ told' = TRUE /\ UNCHANGED <<a, b>> /\ PrintT(ToJson([a |-> a, b |-> b, eq |-> EqualNoCase(a, b), quoted |-> Quote(a), raw |-> RemoveTripleQuotes(Quote(a))]))
PNext == GrowA \/ GrowB \/ Tell
PSpec == PInit /\ [][PNext]_vars
SameAsLower == EqualNoCase(a, b) = (ToLower(a) = ToLower(b))
Symmetric == EqualNoCase(a, b) = EqualNoCase(b, a)
QuotesGone == RemoveTripleQuotes(Quote(a)) = a
===================================================================================
