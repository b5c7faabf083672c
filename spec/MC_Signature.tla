------------------------------- MODULE MC_Signature -------------------------------
(* Two descriptors of a family, written by steps; the first is compared with the second,  *)
(* printed, sent over the wire, and what comes back takes the place of the second.        *)
EXTENDS Signature, Json, IOUtils, Once
LOCAL INSTANCE Text
ASSUME Keep(19, JsonDeserialize(IOEnv.NAMES))
Names == TLCGet(19)          \* texts
ASSUME Keep(20, JsonDeserialize(IOEnv.LISTS))
Lists == TLCGet(20)          \* lists of <<letter, size>>
ASSUME Keep(21, JsonDeserialize(IOEnv.RETS))
Rets == TLCGet(21)
ASSUME Keep(22, JsonDeserialize(IOEnv.PRIMS))
Items == TLCGet(22)          \* <<kind, parts>>
VARIABLES a, b, wire, pc
vars == <<a, b, wire, pc>>
Descriptors(f) == IF f = "ins" THEN {Ins(Names[i], Lists[j]) : i \in 1..Len(Names), j \in 1..Len(Lists)} \cup {Nothing}
                  ELSE {Fn(Names[i], Lists[j], Rets[k]) : i \in 1..Len(Names), j \in 1..Len(Lists), k \in 1..Len(Rets)} \cup {Nothing}
Families == {"ins", "fn"}
\* the second differs from the first in at most one of its parts
Near(f, d) == {d, Nothing} \cup (IF d = Nothing THEN {} ELSE
  {[d EXCEPT !.name = Names[i]] : i \in 1..Len(Names)} \cup {[d EXCEPT !.types = Lists[j]] : j \in 1..Len(Lists)}
  \cup (IF f = "fn" THEN {[d EXCEPT !.ret = <<Rets[k]>>] : k \in 1..Len(Rets)} ELSE {}))
VARIABLE family
all == <<vars, family>>
Init == /\ wire = <<>> /\ pc = "made"
        /\ \/ \E f \in Families : \E d \in Descriptors(f) : \E e \in Near(f, d) : family = f /\ a = d /\ b = e
           \/ \E i \in 1..Len(Items) : family = Items[i][1] /\ a = Prim(Items[i][1], Items[i][2]) /\ b = a
Show(d) == [k |-> d.k, name |-> d.name, types |-> d.types, ret |-> d.ret]
Send == pc = "made" /\ wire' = Write(a) /\ pc' = "sent" /\ UNCHANGED <<a, b, family>>
        /\ PrintT(ToJson([family |-> family, a |-> Show(a), b |-> Show(b), print |-> Shown(a), other |-> Shown(b), same |-> Same(a, b), keys |-> Keys(a.k)]))
Receive == pc = "sent" /\ b' = Read(family, wire) /\ pc' = "received" /\ UNCHANGED <<a, wire, family>>
Next == Send \/ Receive
Spec == Init /\ [][Next]_all
-----------------------------------------------------------------------------------
Arrives == pc = "received" => Same(a, b)
NothingIsEmpty == pc # "made" => (wire = <<>> <=> a = Nothing)
\* what prints differently is different; sizes are not printed
Faithful == family \in Families /\ Shown(a) # Shown(b) => ~Same(a, b)
Plain(n) == \A i \in 1..Len(n) : n[i] # 40
Bare(d) == [d EXCEPT !.types = [i \in 1..Len(@) |-> @[i][1]], !.ret = [i \in 1..Len(@) |-> @[i][1]]]
Injective == family \in Families /\ Plain(a.name) /\ Plain(b.name) /\ a # Nothing /\ b # Nothing /\ Shown(a) = Shown(b) => Bare(a) = Bare(b)
===================================================================================
