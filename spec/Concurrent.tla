-------------------------------- MODULE Concurrent --------------------------------
(* Several threads analyse programs, one after another and at the same time.  All     *)
(* that they share is the instruction table, which the first analysis in need of it   *)
(* creates, trees that were there before the threads, and results nobody changes.  A  *)
(* behaviour interleaves the steps of the calls; at the end it tells the order in     *)
(* which calls began and returned.                                                    *)
EXTENDS Pipeline, Json, IOUtils, Once

ASSUME Keep(11, JsonDeserialize(IOEnv.SCRIPTS))
Scripts == TLCGet(11)      \* script: for every thread, its calls; a call: alternatives [x: text, how]
ASSUME Keep(12, JsonDeserialize(IOEnv.TEXTS))
Texts == TLCGet(12)
ASSUME Keep(13, [i \in 1..Len(Texts) |-> TreeOf(Texts[i])])
Trees == TLCGet(13)

VARIABLES script, th, table, events
cvars == <<script, th, table, events>>
rest == <<src, pc, cp, toks, tree, A, n, errs, result>>

Idle == [at |-> "idle", k |-> 0, x |-> 0, how |-> "", a |-> Fresh, n |-> 0, es |-> <<>>]
Threads == 1..Len(Scripts[script])
CInit == /\ script \in 1..Len(Scripts) /\ th = [t \in 1..Len(Scripts[script]) |-> Idle] /\ table = "absent" /\ events = <<>>
         /\ src = <<>> /\ pc = "calls" /\ cp = <<>> /\ toks = <<>> /\ tree = <<>> /\ A = Fresh /\ n = 0 /\ errs = <<>> /\ result = NoResult

\* what a call answers when nothing else ever happened
OutcomeOf(r) == IF r.s = "und" THEN [o |-> "undecided", es |-> <<>>, b |-> Fresh] ELSE [o |-> IF r.es = <<>> THEN "accepted" ELSE "rejected", es |-> r.es, b |-> r.a]
VersionErrors(t) == IF VersionOk(t.version) THEN <<>> ELSE <<Bad("version", t.version.loc, <<>>)>>
ASSUME Keep(99, [x \in 1..Len(Texts) |-> IF Trees[x] = <<>> THEN [o |-> "unparsed", es |-> <<>>, b |-> Fresh]
                                          ELSE OutcomeOf(RunBlock(Default, Trees[x][1].block.statements, 1, VersionErrors(Trees[x][1])))])
Alone == TLCGet(99)

Begin(t) == /\ th[t].at = "idle" /\ th[t].k < Len(Scripts[script][t])
            /\ \E i \in 1..Len(Scripts[script][t][th[t].k + 1]) :
                 LET c == Scripts[script][t][th[t].k + 1][i] IN
                 /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.at = "text", !.k = th[t].k + 1, !.x = c.x, !.how = c.how]]
                 /\ events' = Append(events, [e |-> "begin", t |-> t, x |-> c.x, how |-> c.how])
            /\ UNCHANGED <<script, table, rest>>
Read(t) == /\ th[t].at = "text" /\ th' = [th EXCEPT ![t].at = IF Trees[th[t].x] = <<>> THEN "done" ELSE "tree"] /\ UNCHANGED <<script, table, events, rest>>
\* an analyzer of its own, with the instructions of the table
Prepare(t) == /\ th[t].at = "tree" /\ table' = "ready"
              /\ th' = [th EXCEPT ![t].at = "block", ![t].a = Default, ![t].n = 1, ![t].es = VersionErrors(Trees[th[t].x][1])]
              /\ UNCHANGED <<script, events, rest>>
Statement2(t) == /\ th[t].at = "block"
                 /\ LET sts == Trees[th[t].x][1].block.statements IN
                    IF th[t].n > Len(sts) THEN th' = [th EXCEPT ![t].at = "done"]
                    ELSE LET r == Step(th[t].a, sts[th[t].n]) IN
                         th' = [th EXCEPT ![t].n = @ + 1, ![t].a = r.A, ![t].es = IF r.s = "err" THEN Append(@, r.e) ELSE @, ![t].at = IF r.s = "und" THEN "undecided" ELSE @]
                 /\ UNCHANGED <<script, table, events, rest>>
Return(t) == /\ th[t].at \in {"done", "undecided"}
             /\ events' = Append(events, [e |-> "return", t |-> t, x |-> th[t].x, how |-> th[t].how])
             /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.k = th[t].k]]
             /\ UNCHANGED <<script, table, rest>>
Over == \A t \in Threads : th[t].at = "idle" /\ th[t].k = Len(Scripts[script][t])
Tell == /\ Over /\ pc = "calls" /\ pc' = "told" /\ PrintT(ToJson([script |-> script, events |-> events]))
        /\ UNCHANGED <<cvars, src, cp, toks, tree, A, n, errs, result>>
CStep == \E t \in Threads : Begin(t) \/ Read(t) \/ Prepare(t) \/ Statement2(t) \/ Return(t)
CNext == CStep \/ Tell
CSpec == CInit /\ [][CNext]_<<cvars, rest>> /\ WF_<<cvars, rest>>(CNext)

\* what a call answers depends on its text only
AnswerOf(c) == IF Trees[c.x] = <<>> THEN [o |-> "unparsed", es |-> <<>>, b |-> Fresh]
               ELSE OutcomeOf([s |-> IF c.at = "undecided" THEN "und" ELSE "ok", es |-> c.es, a |-> c.a])
NoInfluence == \A t \in Threads : th[t].at \in {"done", "undecided"} => AnswerOf(th[t]) = Alone[th[t].x]
\* who analyses has the table
TableInTime == \A t \in Threads : th[t].at = "block" => table = "ready"
\* calls of a thread do not overlap, and every one that returned had begun
Began(t, m) == Cardinality({i \in 1..m : events[i].t = t /\ events[i].e = "begin"})
Returned(t, m) == Cardinality({i \in 1..m : events[i].t = t /\ events[i].e = "return"})
OneAtATime == \A t \in Threads : Began(t, Len(events)) - Returned(t, Len(events)) = IF th[t].at = "idle" THEN 0 ELSE 1
TableIsCreatedOnce == [][table = "ready" => table' = "ready"]_<<cvars, rest>>
OthersStay == [][\A t, u \in Threads : t # u => th'[t] = th[t] \/ th'[u] = th[u]]_<<cvars, rest>>
AllReturn == <>Over
===================================================================================
