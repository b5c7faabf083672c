---------------------------------- MODULE MC_TypeSpec ----------------------------------
(* Type specification strings, written letter by letter, and the instructions that two   *)
(* of them describe.                                                                      *)
EXTENDS Values, Json, IOUtils, Once
LOCAL INSTANCE Text
ASSUME Keep(26, JsonDeserialize(IOEnv.LETTERS))
Letters == TLCGet(26)
Depth == atoi(IOEnv.DEPTH)
VARIABLES spec, good
vars == <<spec, good>>
Init == spec = <<>> /\ good = TRUE
Known(c) == Str(<<c>>) \in Types
Next == /\ Len(spec) < Depth
        /\ \E i \in 1..Len(Letters) : spec' = Append(spec, Letters[i]) /\ good' = (good /\ Known(Letters[i]))
        /\ PrintT(ToJson([spec |-> spec', good |-> good', names |-> IF good' THEN [i \in 1..Len(spec') |-> TypeName(Str(<<spec'[i]>>))] ELSE <<>>]))
Spec == Init /\ [][Next]_vars
OnceBadAlwaysBad == [][~good => ~good']_vars
Meaning == good <=> \A i \in 1..Len(spec) : Known(spec[i])
===================================================================================
