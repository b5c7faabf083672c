--------------------------------- MODULE MC_Error ---------------------------------
(* Errors under construction, copying and attachment of places.                        *)
(* Env: CFG, a JSON object [msgs, files, nums, depth].                                 *)
EXTENDS ErrorObj, Once
ASSUME Keep(14, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(14)
AsSet(s) == {s[i] : i \in 1..Len(s)}
Msgs == AsSet(Cfg.msgs)
Ns == AsSet(Cfg.nums)
Files == {<<>>} \cup {<<f>> : f \in AsSet(Cfg.files)}
Places == {MkLoc(file, <<a, b>>, <<c, d>>) : file \in Files, a \in Ns, b \in Ns, c \in Ns, d \in Ns}
\* contexts come from few places
Later == {p \in Places : p.r.first[1] = p.r.first[2] /\ p.r.first = p.r.last}
Kinds == {"plain", "node", "nodenoloc", "ptr", "nullptr", "range", "derived", "derivednode"}
Placed == {"node", "ptr", "range", "derivednode"}
VARIABLES e, path, ph
vars == <<e, path, ph>>
NoPlace == MkLoc(<<>>, <<1, 1>>, <<1, 1>>)
EInit == \E k \in Kinds, m \in Msgs, p \in Places :
  /\ (k \in Placed \/ p = NoPlace)
  /\ e = MkErr(m, IF k \in Placed THEN <<p>> ELSE <<>>)
  /\ path = <<[op |-> k, m |-> m, p |-> p, e |-> e]>> /\ ph = "run"
More == ph = "run" /\ Len(path) <= Cfg.depth
AddContext == More /\ UNCHANGED ph /\ \E p \in Later : e' = Context(e, <<p>>) /\ path' = Append(path, [op |-> "1", m |-> <<>>, p |-> p, e |-> e'])
AddNothing == More /\ UNCHANGED <<ph, e>> /\ path' = Append(path, [op |-> "0", m |-> <<>>, p |-> NoPlace, e |-> e])
Copy == More /\ UNCHANGED <<ph, e>> /\ path' = Append(path, [op |-> "copy", m |-> <<>>, p |-> NoPlace, e |-> e])
N2(p) == <<Nums[p[1]], Nums[p[2]]>>
RepPlace(p) == [file |-> p.file, a |-> N2(p.r.first), b |-> N2(p.r.last)]
Tell == /\ ph = "run" /\ Len(path) = Cfg.depth + 1 /\ ph' = "done" /\ UNCHANGED <<e, path>>
        /\ PrintT(ToJson([m |-> path[1].m, steps |-> [i \in 1..Len(path) |-> [op |-> path[i].op, p |-> RepPlace(path[i].p), what |-> What(path[i].e), lsp |-> Lsp(path[i].e)]]]))
ENext == AddContext \/ AddNothing \/ Copy \/ Tell
ESpec == EInit /\ [][ENext]_vars
FirstPlaceWins == [][e.loc # <<>> => e'.loc = e.loc]_vars
MessageStays == [][e'.msg = e.msg]_vars
NeverEmpty == e.msg # <<>>
\* decoding the encoded message gives it back, and nothing in it ends the string early
Encodable == LET j == JsonEncode(e.msg) IN JsonDecode(j) = e.msg /\ \A i \in 1..Len(j) : j[i] >= 32 /\ j[i] # 34
===================================================================================
