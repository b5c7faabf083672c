-------------------------------- MODULE MC_Overload --------------------------------
(* A table of overloads grows; every query is answered at every size.                       *)
(* Env: CFG [promotions, names, types (sequences of letters), queries, depth].              *)
EXTENDS Overload, Json, IOUtils, Once
ASSUME Keep(18, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(18)
Promotes(i) == LET s == Cfg.promotions[i] IN {<<s[j][1], s[j][2]>> : j \in 1..Len(s)}
VARIABLES rel, table, ph
vars == <<rel, table, ph>>
OInit == rel \in 1..Len(Cfg.promotions) /\ table = <<>> /\ ph = "run"
Add == ph = "run" /\ Len(table) < Cfg.depth /\ UNCHANGED <<rel, ph>>
       /\ \E n \in 1..Len(Cfg.names), t \in 1..Len(Cfg.types) : table' = Append(table, [name |-> Cfg.names[n], types |-> Cfg.types[t], tag |-> Len(table) + 1])
Ask(n, a) == Resolution(Promotes(rel), table, n, a)
Tell == ph = "run" /\ ph' = "done" /\ UNCHANGED <<rel, table>>
        /\ PrintT(ToJson([rel |-> rel, table |-> table, answers |-> [n \in 1..Len(Cfg.names) |-> [q \in 1..Len(Cfg.queries) |-> Ask(Cfg.names[n], Cfg.queries[q])]]]))
ONext == Add \/ Tell
OSpec == OInit /\ [][ONext]_vars
\* an exact match added last always wins; a further overload never makes a call fail
LastExactWins == table # <<>> => LET t == table[Len(table)] IN Ask(t.name, t.types).tag = t.tag
NeverLost == [][\A n \in 1..Len(Cfg.names), q \in 1..Len(Cfg.queries) : Ask(Cfg.names[n], Cfg.queries[q]).r = "ok" => Ask(Cfg.names[n], Cfg.queries[q])'.r = "ok"]_vars
OtherNamesUntouched == [][\A n \in 1..Len(Cfg.names), q \in 1..Len(Cfg.queries) :
    (IF Len(table') > Len(table) THEN table'[Len(table')].name # Cfg.names[n] ELSE TRUE) => Ask(Cfg.names[n], Cfg.queries[q])' = Ask(Cfg.names[n], Cfg.queries[q])]_vars
===================================================================================
