---------------------------------- MODULE Session ----------------------------------
(* Histories of calls on analyzers.  Several analyzers live side by side; every call  *)
(* acts on one of them and answers.  A family is a sequence of slots, every slot a    *)
(* sequence of alternative calls; a behaviour makes one call per slot and at the end  *)
(* tells what every call has to answer.                                               *)
EXTENDS Pipeline, Json, IOUtils, Once

ASSUME Keep(30, JsonDeserialize(IOEnv.FAMILIES))
Families == TLCGet(30)
ASSUME Keep(31, JsonDeserialize(IOEnv.TEXTS))
Texts == TLCGet(31)

ASSUME Keep(32, [i \in 1..Len(Texts) |-> TreeOf(Texts[i])])
Trees == TLCGet(32)

VARIABLES fam, slot, an, hist
svars == <<fam, slot, an, hist>>

None1 == [live |-> FALSE, a |-> Fresh, api |-> <<>>]
Live(a, api) == [live |-> TRUE, a |-> a, api |-> api]
Ids == {"1", "2", "3"}

\* values that calls pass in: the analyzer (its variables grow) and the value
ToValue(a, x) ==
  CASE x.k = "b" -> [a |-> a, v |-> BoolV(x.v, <<>>)]
    [] x.k = "i" -> [a |-> a, v |-> IntV(IF SubSeq(x.v, 1, 1) = "-" THEN Neg(FromDec(Codes(SubSeq(x.v, 2, Len(x.v))))) ELSE FromDec(Codes(x.v)), <<>>)]
    [] x.k = "f" -> [a |-> a, v |-> Sym("f", Leaf("lit", x.v), <<>>)]
    [] OTHER -> LET b == [a EXCEPT !.arena = Append(@, [name |-> x.name, typ |-> x.typ, size |-> FromDec(Codes(x.size))])] IN
                [a |-> b, v |-> IF x.k = "var" THEN Var(Len(b.arena), <<>>) ELSE Ix(Len(b.arena), [i \in 1..Len(x.ix) |-> FromDec(Codes(x.ix[i]))], <<>>)]
RECURSIVE ToValues(_, _, _, _)
ToValues(a, xs, i, acc) == IF i > Len(xs) THEN [a |-> a, v |-> acc] ELSE LET r == ToValue(a, xs[i]) IN ToValues(r.a, xs, i + 1, Append(acc, r.v))

AllTypes(ts) == \A i \in 1..Len(ts) : SubSeq(ts, i, i) \in Types
Fine == [r |-> "ok"]
Wrong(kind, names) == [r |-> "err", kind |-> kind, names |-> names]
Invalid == [r |-> "invalid"]
Answer(b, r) == [b |-> b, r |-> r]

\* the value of an answer, with the variables that it may refer to
ValueAnswer(a, r) == IF r.s = "und" THEN [r |-> "any"] ELSE IF r.s = "err" THEN Wrong(r.kind, r.names)
                     ELSE IF r.v = <<>> THEN [r |-> "none"] ELSE [r |-> "val", v |-> RepValue(r.v), vars |-> [i \in 1..Len(a.arena) |-> RepVariable(a.arena[i])]]
InstructionAnswer(a, name, r) ==
  IF r.s = "err" THEN Wrong(r.kind, r.names)
  ELSE [r |-> "ins", name |-> name, types |-> r.v.types, operands |-> RepValues(r.v.operands), vars |-> [i \in 1..Len(a.arena) |-> RepVariable(a.arena[i])]]
GateAnswer(a, name, r) == IF r.s = "err" THEN Wrong(r.kind, r.names) ELSE [InstructionAnswer(a, name, r) EXCEPT !.r = "gate"]

Numbers(items) == [i \in 1..Len(items) |-> Str(ToDec(FromDec(items[i])))]
VersionText(items) == Str(Join([i \in 1..Len(items) |-> ToDec(FromDec(items[i]))], <<46>>))
\* a result lists the variables of its scope; what it is when statements use others is left open
Closed(sc) == LET own == {sc.vars[i] : i \in 1..Len(sc.vars)} IN
  \A i \in 1..Len(sc.stmts) : sc.stmts[i].k \in {"gate", "nongate"} => \A j \in 1..Len(sc.stmts[i].operands) :
    LET v == sc.stmts[i].operands[j] IN IsConst(v) \/ (IF IsConst(v) THEN TRUE ELSE v.x \in own)
AnalysisOf(a, api, t) ==
  LET v == t.version
      e0 == IF SameVersion(v.items, api) THEN <<>> ELSE <<Bad("version", v.loc, <<VersionText(api), VersionText(v.items)>>)>>
      r == RunBlock(a, t.block.statements, 1, e0)
  IN [b |-> r.a,
      r |-> IF r.s = "und" \/ (r.es = <<>> /\ ~Closed(r.a.scopes[1])) THEN [r |-> "any"]
            ELSE IF r.es # <<>> THEN [r |-> "rejected", errs |-> RepErrors(r.es), arena |-> [i \in 1..Len(r.a.arena) |-> RepVariable(r.a.arena[i])],
                                      kept |-> IF Closed(r.a.scopes[1]) THEN <<RepSemantic(r.a, Numbers(v.items))>> ELSE <<>>]
            ELSE [r |-> "accepted", api |-> Numbers(api), vloc |-> v.loc, arena |-> [i \in 1..Len(r.a.arena) |-> RepVariable(r.a.arena[i])],
                  sem |-> RepSemantic(r.a, Numbers(v.items))]]


RECURSIVE AddDefaults(_, _, _)
\* the first name that is already there stops the registration
AddDefaults(a, k, names) ==
  IF k > Len(names) THEN Answer(a, Fine)
  ELSE IF LookupIn(a.scopes[1].names, names[k][1], 1) # <<>> THEN Answer(a, Wrong("redeclaration", <<names[k][1]>>))
  ELSE AddDefaults(AddName(a, names[k][1], names[k][2]), k + 1, names)

Calls(a, api, c) ==
  CASE c.op = "consts" -> AddDefaults(a, 1, DefaultNames)
    [] c.op = "fns" -> Answer([a EXCEPT !.scopes[Len(a.scopes)].fns = @ \o DefaultFunctions], Fine)
    [] c.op = "insts" -> Answer([a EXCEPT !.scopes[1].ins = @ \o DefaultInstructions], Fine)
    [] c.op = "push" -> Answer(PushScope(a), Fine)
    [] c.op = "pop" -> Answer(PopScope(a), Fine)
    [] c.op = "regvar" ->
       LET r == ToValue(a, c.val) IN
       IF LookupIn(a.scopes[1].names, c.name, 1) # <<>> THEN Answer(a, Wrong("redeclaration", <<c.name>>)) ELSE Answer(AddName(r.a, c.name, r.v), Fine)
    [] c.op = "resvar" -> Answer(a, ValueAnswer(a, ResolveVariable(a, c.name)))
    [] c.op = "regfn" -> IF AllTypes(c.types) THEN Answer(AddFunction(a, c.name, c.types, c.tag), Fine) ELSE Answer(a, Invalid)
    [] c.op = "resfn" -> LET r == ToValues(a, c.args, 1, <<>>) IN Answer(a, ValueAnswer(r.a, Call(r.a.arena, GlobalFunctions(r.a), c.name, r.v)))
    [] c.op = "regins" -> IF AllTypes(c.types) THEN Answer(AddInstruction(a, c.name, c.types), Fine) ELSE Answer(a, Invalid)
    [] c.op = "resins" -> LET r == ToValues(a, c.args, 1, <<>>) IN Answer(a, InstructionAnswer(r.a, c.name, ResolveInstruction(r.a, c.name, r.v)))
    [] c.op = "resgate" -> LET r == ToValues(a, c.args, 1, <<>>) IN Answer(a, GateAnswer(r.a, c.name, ResolveInstruction(r.a, c.name, r.v)))
    [] c.op = "addasm" -> Answer(AddStatement(a, [k |-> "asm", name |-> c.name, code |-> Codes(c.tag), loc |-> <<>>]), Fine)
    [] c.op = "analyze" -> IF Trees[c.text] = <<>> THEN Answer(a, [r |-> "unparsed"]) ELSE AnalysisOf(a, api, Trees[c.text][1])

Creation(c) ==
  IF ~SameVersion(c.items, ApiVersion) THEN [n |-> None1, r |-> Invalid]
  ELSE [n |-> Live(CASE c.op = "new" -> Fresh
                     [] c.op = "default" -> Default
                     [] c.op = "newv3x" -> IF c.bare THEN [Default EXCEPT !.scopes[1].ins = <<>>] ELSE Default, c.items), r |-> Fine]

Copies == {"copy", "assign", "move"}
Enabled(c) == IF c.op \in {"new", "default", "newv3x"} THEN TRUE
              ELSE an[c.id].live /\ (c.op = "pop" => Len(an[c.id].a.scopes) > 1) /\ (IF c.op = "assign" THEN an[c.to].live ELSE TRUE)

SInit == \E f \in 1..Len(Families) : fam = f /\ slot = 1 /\ an = [i \in Ids |-> None1] /\ hist = <<>>
          /\ src = <<>> /\ pc = "call" /\ cp = <<>> /\ toks = <<>> /\ tree = <<>> /\ A = Fresh /\ n = 0 /\ errs = <<>> /\ result = NoResult
Make(c) ==
  IF c.op \in {"new", "default", "newv3x"}
  THEN LET r == Creation(c) IN an' = [an EXCEPT ![c.id] = IF r.r = Fine THEN r.n ELSE @] /\ hist' = Append(hist, [c |-> c, r |-> r.r])
  ELSE IF c.op \in Copies      \* what is copied or moved away is never shared
  THEN an' = [i \in Ids |-> IF i = c.to THEN an[c.id] ELSE IF i = c.id /\ c.op = "move" THEN None1 ELSE an[i]] /\ hist' = Append(hist, [c |-> c, r |-> Fine])
  ELSE LET r == Calls(an[c.id].a, an[c.id].api, c) IN an' = [an EXCEPT ![c.id].a = r.b] /\ hist' = Append(hist, [c |-> c, r |-> r.r])
\* a call that is not possible (no such analyzer, no scope to leave) is left out
CallStep ==
  /\ pc = "call" /\ slot <= Len(Families[fam])
  /\ \E i \in 1..Len(Families[fam][slot]) :
       LET c == Families[fam][slot][i] IN IF Enabled(c) THEN Make(c) ELSE UNCHANGED <<an, hist>>
  /\ slot' = slot + 1 /\ UNCHANGED <<fam, vars>>
Tell == /\ pc = "call" /\ slot > Len(Families[fam]) /\ PrintT(ToJson([hist |-> hist])) /\ pc' = "told" /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result, svars>>
SSpec == SInit /\ [][CallStep \/ Tell]_<<svars, vars>>

-----------------------------------------------------------------------------------
(* Properties of histories                                                            *)
Queries == {"resvar", "resfn", "resins", "resgate"}
Asked == IF Len(hist') > Len(hist) THEN hist'[Len(hist')].c ELSE [op |-> "nothing", id |-> "1"]
\* a call on one analyzer leaves the others alone
Independent == [][\A i \in Ids : i # Asked.id /\ (IF Asked.op \in Copies THEN i # Asked.to ELSE TRUE) => an'[i] = an[i]]_<<svars, vars>>
CopiesAreEqual == [][Asked.op \in Copies => an'[Asked.to] = an[Asked.id] /\ (Asked.op # "move" => an'[Asked.id] = an[Asked.id])]_<<svars, vars>>
\* queries, and registrations that fail, change nothing
QueriesAreSilent == [][Asked.op \in Queries => an' = an]_<<svars, vars>>
FailuresAreSilent == [][Asked.op \in {"regvar", "regfn", "regins"} /\ (IF Len(hist') > Len(hist) THEN hist'[Len(hist')].r.r \in {"err", "invalid"} ELSE FALSE) => an' = an]_<<svars, vars>>
\* leaving a scope brings back exactly what was there, except for functions, which are global
WithoutFns(a) == [a EXCEPT !.scopes[Len(a.scopes)].fns = <<>>]
InnerIsInner == [][Asked.op \in {"push", "regvar", "regins", "consts", "insts", "analyze"} /\ an[Asked.id].live =>
   LET old == an[Asked.id].a.scopes new == an'[Asked.id].a.scopes k == Len(new) - Len(old) IN
   \A i \in 2..Len(old) : new[i + k] = old[i]]_<<svars, vars>>
\* within a scope nothing is ever taken back
IsPrefix1(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
ScopesGrow == [][Asked.op \notin {"push", "pop", "new", "default", "newv3x"} \cup Copies =>
   \A i \in Ids : Len(an'[i].a.scopes) = Len(an[i].a.scopes) /\ \A k \in 1..Len(an[i].a.scopes) :
     LET o == an[i].a.scopes[k] w == an'[i].a.scopes[k] IN
     IsPrefix1(o.names, w.names) /\ IsPrefix1(o.fns, w.fns) /\ IsPrefix1(o.ins, w.ins) /\ IsPrefix1(o.vars, w.vars) /\ IsPrefix1(o.stmts, w.stmts)]_<<svars, vars>>
NoDuplicateNames == \A i \in Ids : \A k \in 1..Len(an[i].a.scopes) : LET ns == an[i].a.scopes[k].names IN \A x, y \in 1..Len(ns) : ns[x][1] = ns[y][1] => x = y
FunctionsAreGlobal == \A i \in Ids : \A k \in 1..(Len(an[i].a.scopes) - 1) : an[i].a.scopes[k].fns = <<>>
===================================================================================
