---------------------------------- MODULE MC_Text ----------------------------------
(* Byte strings grow one byte at a time; on each the utilities answer.                  *)
(* Env: CFG [bytes, depth, extra]: the alphabet, the greatest size, more strings.       *)
EXTENDS Text, Json, IOUtils, Once
ASSUME Keep(24, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(24)
AsSet(s) == {s[i] : i \in 1..Len(s)}
Alphabet == AsSet(Cfg.bytes)
VARIABLES s, told
vars == <<s, told>>
TInit == told = FALSE /\ (s = <<>> \/ (\E i \in 1..Len(Cfg.extra) : s = Cfg.extra[i]) \/ (\E b \in 0..255 : s = <<b>>))
Grow == ~told /\ Len(s) < Cfg.depth /\ (\A i \in 1..Len(s) : s[i] \in Alphabet) /\ \E b \in Alphabet : s' = Append(s, b) /\ UNCHANGED told
Tell == ~told /\ told' = TRUE /\ UNCHANGED s /\ PrintT(ToJson([s |-> s, lower |-> ToLower(s), url |-> UrlEncode(s), json |-> JsonEncode(s)]))
TNext == Grow \/ Tell
TSpec == TInit /\ [][TNext]_vars
LowerIdempotent == LET l == ToLower(s) IN ToLower(l) = l /\ Len(l) = Len(s) /\ EqualNoCase(s, l)
UrlInvertible == UrlDecode(UrlEncode(s)) = s
UrlSafe == LET u == UrlEncode(s) IN \A i \in 1..Len(u) : Unreserved(u[i]) \/ u[i] = 37
JsonInvertible == JsonDecode(JsonEncode(s)) = s
JsonSafe == LET j == JsonEncode(s) IN \A i \in 1..Len(j) : j[i] >= 32 /\ j[i] # 34
===================================================================================
