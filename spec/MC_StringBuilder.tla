----------------------------- MODULE MC_StringBuilder -----------------------------
(* A string under construction from fragments and escape sequences.                        *)
(* Env: CFG [strings, escapes, depth].                                                     *)
EXTENDS Text, Json, IOUtils, Once
ASSUME Keep(23, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(23)
Unescape(e) ==
  CASE e = <<92, 116>> -> <<9>> [] e = <<92, 110>> -> <<10>> [] e = <<92, 114>> -> <<13>> [] e = <<92, 39>> -> <<39>> [] e = <<92, 34>> -> <<34>>
    [] e = <<92, 92>> -> <<92>> [] OTHER -> e
VARIABLES out, path, ph
vars == <<out, path, ph>>
SInit == out = <<>> /\ path = <<>> /\ ph = "run"
PushString == ph = "run" /\ Len(path) < Cfg.depth /\ UNCHANGED ph
              /\ \E i \in 1..Len(Cfg.strings) : out' = out \o Cfg.strings[i] /\ path' = Append(path, [op |-> "s", x |-> Cfg.strings[i], out |-> out'])
PushEscape == ph = "run" /\ Len(path) < Cfg.depth /\ UNCHANGED ph
              /\ \E i \in 1..Len(Cfg.escapes) : out' = out \o Unescape(Cfg.escapes[i]) /\ path' = Append(path, [op |-> "e", x |-> Cfg.escapes[i], out |-> out'])
Tell == ph = "run" /\ Len(path) = Cfg.depth /\ ph' = "done" /\ UNCHANGED <<out, path>> /\ PrintT(ToJson([path |-> path]))
SNext == PushString \/ PushEscape \/ Tell
SSpec == SInit /\ [][SNext]_vars
\* what is built stays
AppendOnly == [][SubSeq(out', 1, Len(out)) = out]_vars
===================================================================================
