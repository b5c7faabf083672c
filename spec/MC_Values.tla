---------------------------------- MODULE MC_Values ----------------------------------
(* Every value of a pool taken through two promotions in a row, to all types.          *)
(* The pool holds constants of all classes and references of all kinds.                *)
EXTENDS Values, Json, IOUtils, Once, FiniteSets
LOCAL INSTANCE Text
ASSUME Keep(27, JsonDeserialize(IOEnv.VALUES))
Pool == TLCGet(27)
TypeSeq == <<"Q", "B", "b", "i", "f", "V", "W">>
Arena == [i \in 1..Len(Pool) |-> IF Pool[i].k \in {"var", "ix"} THEN [typ |-> Pool[i].typ, size |-> FromDec(Codes(Pool[i].size))] ELSE [typ |-> "b", size |-> Big(1)]]
Signed(s) == IF SubSeq(s, 1, 1) = "-" THEN Neg(FromDec(Codes(SubSeq(s, 2, Len(s))))) ELSE FromDec(Codes(s))
Here == <<3, 4, 5, 6>>
ValueOf(i) ==
  LET x == Pool[i] IN
  CASE x.k = "b" -> BoolV(x.v, Here) [] x.k = "i" -> IntV(Signed(x.v), Here) [] x.k = "f" -> Sym("f", Leaf("lit", x.v), Here)
    [] x.k = "var" -> Var(i, Here) [] OTHER -> Ix(i, [j \in 1..Len(x.ix) |-> FromDec(Codes(x.ix[j]))], Here)
VARIABLES pick, val, path
vars == <<pick, val, path>>
Init == \E i \in 1..Len(Pool) : pick = i /\ val = ValueOf(i) /\ path = ""
Rep(v) == IF IsConst(v) THEN [c |-> v.c, t |-> TermOf(v), loc |-> v.loc] ELSE [c |-> v.c, x |-> v.x, ix |-> [j \in 1..Len(v.ix) |-> Str(ToDec(v.ix[j]))], loc |-> v.loc]
\* promotions of dynamic values of arithmetic types are only specified between booleans and integers
Open(v, to) == ~IsConst(v) /\ TypeOf(Arena, v) \in {"b", "i"} /\ to = "f"
Tell(to) ==
  PrintT(ToJson([value |-> pick, to |-> to, type |-> TypeOf(Arena, val), size |-> Str(ToDec(SizeOf(Arena, val))), const |-> IsConst(val), can |-> CanPromote(TypeOf(Arena, val), to),
                 open |-> Open(val, to), elem |-> IF TypeOf(Arena, val) \in {"V", "W"} THEN TypeName(Elem(TypeOf(Arena, val))) ELSE "",
                 promoted |-> LET p == Promote(Arena, val, to) IN [i \in 1..Len(p) |-> Rep(p[i])]]))
Next == /\ Len(path) < 2
        /\ \E k \in 1..7 : LET to == TypeSeq[k] p == Promote(Arena, val, to) IN
             /\ path = "" => Tell(to)
             /\ p # <<>> /\ val' = p[1] /\ path' = path \o to /\ UNCHANGED pick
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------------
KeepsPlace == val.loc = Here
\* promotion goes up the order bool < int < float and nowhere else
Rank(t) == CASE t = "b" -> 1 [] t = "i" -> 2 [] t = "f" -> 3 [] OTHER -> 0
ClassOf(v) == TypeOf(Arena, v)
OnlyUp == [][Rank(ClassOf(val')) >= Rank(ClassOf(val)) /\ (Rank(ClassOf(val)) = 0 => val' = val)]_vars
Agrees == \A k \in 1..7 : IsConst(val) => ((Promote(Arena, val, TypeSeq[k]) # <<>>) <=> CanPromote(ClassOf(val), TypeSeq[k]))
\* and the way does not matter: bool to float directly or through int is the same value
ThroughInt == pick \in 1..Len(Pool) /\ IsConst(val) /\ path = "if" /\ Pool[pick].k = "b" =>
  LET d == Promote(Arena, ValueOf(pick), "f")[1] IN d.c = val.c /\ d.t.op = "b2f" /\ val.t.op = "i2f" /\ val.t.as[1] = Leaf("int", IF Pool[pick].v THEN "1" ELSE "0")
===================================================================================
