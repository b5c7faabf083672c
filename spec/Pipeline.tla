--------------------------------- MODULE Pipeline ---------------------------------
(* From source text to the result of the analysis, as a state machine.  One behaviour *)
(* per source text; every action is one phase, and in the block one statement.        *)
(*   text --Scan--> tokens --Parse--> tree --CheckVersion--> block --Statement*--> done *)
EXTENDS Integers, Sequences, FiniteSets, Grammar, Analysis

VARIABLES src, pc, cp, toks, tree, A, n, errs, result
vars == <<src, pc, cp, toks, tree, A, n, errs, result>>

\* locations at which a literal that does not fit 64 bits may be reported
TokStart(t) == <<t.l, t.c + 1, t.l, t.c + 1>>
RangeLocs(s, T) ==
  LET ofToken(t) ==
        IF t.t = "INT" /\ ~InInt64(FromDec(TokText(s, t))) THEN {TokStart(t)}
        ELSE IF t.t = "VNUM" THEN
          LET items == VersionItems(TokText(s, t)) IN
          (IF InInt64(FromDec(items[1])) THEN {} ELSE {TokStart(t)})
          \cup (IF Len(items) = 1 THEN {} ELSE IF InInt64(FromDec(items[2])) THEN {}
                ELSE {<<t.l, t.c + 2 + Len(items[1]), t.l, t.c + 2 + Len(items[1])>>})
        ELSE {}
  IN UNION {ofToken(T[i]) : i \in 1..Len(T)}
Floats(s, T) == LET ts == SelectSeq(T, LAMBDA t : t.t = "FLOAT") IN [i \in 1..Len(ts) |-> [v |-> Str(TokText(s, ts[i])), loc |-> TokStart(ts[i])]]

\* an unexpected token is reported where it is; a character that starts no token right after
\* it may be met first (the parser looks at the next token before it gives up)
SyntaxLocs(s, T, p) == {ErrLoc(s, T[p])} \cup (IF p < Len(T) /\ T[p].t # "ERR" /\ T[p + 1].t = "ERR" THEN {ErrLoc(s, T[p + 1])} ELSE {})
NoResult == [outcome |-> "none", locs |-> {}, floats |-> <<>>]
Outcome(o, locs, floats) == [outcome |-> o, locs |-> locs, floats |-> floats]

InitFor(bytes) ==
  /\ src = bytes /\ pc = "text" /\ cp = <<>> /\ toks = <<>> /\ tree = <<>> /\ A = Fresh /\ n = 0 /\ errs = <<>> /\ result = NoResult

\* a byte order mark in front is no part of the text
WithoutMark(b) == IF Len(b) >= 3 /\ SubSeq(b, 1, IF Len(b) < 3 THEN Len(b) ELSE 3) = <<239, 187, 191>> THEN SubSeq(b, 4, Len(b)) ELSE b
Scan ==
  /\ pc = "text"
  /\ LET d == Decode(WithoutMark(src)) IN
     IF d.ok THEN /\ pc' = "tokens" /\ cp' = d.cp /\ toks' = Lex(d.cp) /\ UNCHANGED result
     ELSE /\ pc' = "done" /\ result' = Outcome("encoding", {}, <<>>) /\ UNCHANGED <<cp, toks>>
  /\ UNCHANGED <<src, tree, A, n, errs>>

Parse ==
  /\ pc = "tokens"
  /\ LET p == ProgramOf(cp, toks) IN
     IF ~p.ok THEN /\ pc' = "done" /\ result' = Outcome("syntax", SyntaxLocs(cp, toks, p.p), <<>>) /\ UNCHANGED tree
     ELSE LET locs == RangeLocs(cp, toks) IN
          IF locs # {} THEN /\ pc' = "done" /\ result' = Outcome("range", locs, Floats(cp, toks)) /\ UNCHANGED tree
          ELSE /\ pc' = "tree" /\ tree' = <<p.n>> /\ result' = Outcome("parsed", {}, Floats(cp, toks))
  /\ UNCHANGED <<src, cp, toks, A, n, errs>>

CheckVersion ==
  /\ pc = "tree"
  /\ pc' = "block" /\ n' = 1 /\ A' = Default
  /\ LET v == tree[1].version IN
     errs' = IF VersionOk(v) THEN errs
             ELSE Append(errs, Bad("version", v.loc, <<"3.0", Str(Join([i \in 1..Len(v.items) |-> ToDec(FromDec(v.items[i]))], <<46>>))>>))
  /\ UNCHANGED <<src, cp, toks, tree, result>>

Statements1 == tree[1].block.statements
Statement1 ==
  /\ pc = "block" /\ n <= Len(Statements1)
  /\ LET r == Step(A, Statements1[n]) IN
     /\ A' = r.A
     /\ errs' = IF r.s = "err" THEN Append(errs, r.e) ELSE errs
     /\ IF r.s = "und" THEN pc' = "done" /\ result' = [result EXCEPT !.outcome = "undecided"] ELSE UNCHANGED <<pc, result>>
  /\ n' = n + 1
  /\ UNCHANGED <<src, cp, toks, tree>>
Finish ==
  /\ pc = "block" /\ n > Len(Statements1)
  /\ pc' = "done" /\ result' = [result EXCEPT !.outcome = IF errs = <<>> THEN "accepted" ELSE "rejected"]
  /\ UNCHANGED <<src, cp, toks, tree, A, n, errs>>
PipelineNext == Scan \/ Parse \/ CheckVersion \/ Statement1 \/ Finish

-----------------------------------------------------------------------------------
(* Phases in one step, for calls that are one action elsewhere                        *)
\* syntax tree of a text, <<>> when it does not parse
TreeOf(bytes) ==
  LET d == Decode(WithoutMark(bytes))
      ts == Lex(d.cp)
      p == ProgramOf(d.cp, ts)
  IN IF ~d.ok THEN <<>> ELSE IF ~p.ok \/ RangeLocs(d.cp, ts) # {} THEN <<>> ELSE <<p.n>>
\* analysis of one tree by an analyzer with a past
RECURSIVE RunBlock(_, _, _, _)
RunBlock(a, sts, i, es) ==
  IF i > Len(sts) THEN [s |-> "ok", a |-> a, es |-> es]
  ELSE LET r == Step(a, sts[i]) IN
       IF r.s = "und" THEN [s |-> "und", a |-> a, es |-> es] ELSE RunBlock(r.A, sts, i + 1, IF r.s = "err" THEN Append(es, r.e) ELSE es)

-----------------------------------------------------------------------------------
(* Reports: what the library has to answer for this source                           *)
RepValue(v) == IF IsConst(v) THEN [c |-> v.c, t |-> TermOf(v), loc |-> v.loc]
               ELSE [c |-> v.c, x |-> v.x, ix |-> [i \in 1..Len(v.ix) |-> Str(ToDec(v.ix[i]))], loc |-> v.loc]
RepValues(vs) == [i \in 1..Len(vs) |-> RepValue(vs[i])]
RECURSIVE RepGate(_)
RepGate(g) == [name |-> g.name, gate |-> IF g.gate = <<>> THEN <<>> ELSE <<RepGate(g.gate[1])>>, parameters |-> RepValues(g.parameters), loc |-> g.loc]
RepStatement(st) ==
  CASE st.k = "gate" -> [k |-> "gate", name |-> st.name, types |-> st.types, gate |-> RepGate(st.gate), operands |-> RepValues(st.operands), loc |-> st.loc]
    [] st.k = "nongate" -> [k |-> "nongate", name |-> st.name, types |-> st.types, parameters |-> RepValues(st.parameters), operands |-> RepValues(st.operands), loc |-> st.loc]
    [] OTHER -> st
RepVariable(v) == [name |-> v.name, typ |-> v.typ, size |-> Str(ToDec(v.size))]
LocMin(a, b) == IF a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) THEN a ELSE b
LocMax(a, b) == IF a[3] > b[3] \/ (a[3] = b[3] /\ a[4] >= b[4]) THEN a ELSE b
RECURSIVE Cover(_, _, _)
Cover(sts, i, acc) ==
  IF i > Len(sts) THEN acc
  ELSE LET l == sts[i].loc IN
       Cover(sts, i + 1, IF l = <<>> THEN acc ELSE IF acc = <<>> THEN l
             ELSE <<LocMin(acc, l)[1], LocMin(acc, l)[2], LocMax(acc, l)[3], LocMax(acc, l)[4]>>)
RepErrors(es) == [i \in 1..Len(es) |-> [kind |-> es[i].kind, loc |-> es[i].loc, names |-> es[i].names]]
RepSemantic(B, version) ==
  LET sc == B.scopes[1] IN
  [version |-> version, vars |-> [i \in 1..Len(sc.vars) |-> RepVariable(B.arena[sc.vars[i]])],
   stmts |-> [i \in 1..Len(sc.stmts) |-> RepStatement(sc.stmts[i])], loc |-> Cover(sc.stmts, 1, <<>>)]
Report ==
  [outcome |-> result.outcome, locs |-> result.locs, floats |-> result.floats, ast |-> tree, errs |-> RepErrors(errs),
   sem |-> IF result.outcome \in {"accepted", "rejected"} THEN <<RepSemantic(A, [i \in 1..Len(tree[1].version.items) |-> Str(ToDec(FromDec(tree[1].version.items[i])))])>> ELSE <<>>]

-----------------------------------------------------------------------------------
(* Properties of the specification itself, checked by TLC on every reachable state    *)
RefOk(v) == IsConst(v) \/ (v.x \in 1..Len(A.arena) /\ \A i \in 1..Len(v.ix) : ~v.ix[i].neg /\ Cmp(v.ix[i], A.arena[v.x].size) < 0)
Names == A.scopes[1].names
UniqueNames == \A i, j \in 1..Len(Names) : Names[i][1] = Names[j][1] => i = j
PositiveSizes == \A i \in 1..Len(A.arena) : ~IsZero(A.arena[i].size) /\ (A.arena[i].typ \in {"Q", "B"} => A.arena[i].size = Big(1))
Sts == A.scopes[1].stmts
IndicesInRange == \A i \in 1..Len(Sts) : Sts[i].k \in {"gate", "nongate"} => \A j \in 1..Len(Sts[i].operands) : RefOk(Sts[i].operands[j])
GatesBroadcastEvenly == \A i \in 1..Len(Sts) : Sts[i].k = "gate" => SameQubitCounts(A, Sts[i].operands)
MeasuresMatch == \A i \in 1..Len(Sts) : Sts[i].k = "nongate" /\ (IF Sts[i].k = "nongate" THEN Sts[i].name = "measure" ELSE FALSE) => SameQubitBitCounts(A, Sts[i].operands)
OperandsFitSignature ==
  \A i \in 1..Len(Sts) : Sts[i].k \in {"gate", "nongate"} =>
    /\ <<Sts[i].name, Sts[i].types>> \in DefaultSignatures
    /\ \A j \in 1..Len(Sts[i].operands) : TypeOf(A.arena, Sts[i].operands[j]) = SubSeq(Sts[i].types, j, j)
RECURSIVE ModifiersFit(_)
ModifiersFit(g) == g.gate = <<>> \/ (~IsDoubleGate(ResolutionName(g.gate[1])) /\ ModifiersFit(g.gate[1]))
NoModifierOnMultiQubit == \A i \in 1..Len(Sts) : Sts[i].k = "gate" => ModifiersFit(Sts[i].gate)
\* a statement is kept, declared or rejected; the program starts with one scope and ends with one
Accounted == pc \in {"block", "done"} /\ result.outcome # "undecided" /\ tree # <<>> /\ n > 0 =>
  /\ Len(A.scopes) = 1
  /\ Len(Sts) + Len(A.scopes[1].vars) + Len(errs) >= n - 1
  /\ Len(Sts) + Len(Names) - Len(DefaultNames) + Len(errs) \in {n - 1, n}
ErrorsArePlaced == \A i \in 1..Len(errs) : errs[i].loc # <<>>
TreeInOrder ==
  tree # <<>> => LET st == tree[1].block.statements IN
    \A i, j \in 1..Len(st) : i < j /\ st[i].loc # <<>> /\ st[j].loc # <<>> =>
      (st[i].loc[1] < st[j].loc[1] \/ (st[i].loc[1] = st[j].loc[1] /\ st[i].loc[2] < st[j].loc[2]))
TokensInOrder == \A i \in 1..Len(toks) : i > 1 => toks[i].i >= toks[i - 1].e /\ (toks[i].l > toks[i - 1].l \/ (toks[i].l = toks[i - 1].l /\ toks[i].c >= toks[i - 1].c))
SpecInvariant ==
  /\ UniqueNames /\ PositiveSizes /\ IndicesInRange /\ GatesBroadcastEvenly /\ MeasuresMatch /\ OperandsFitSignature /\ NoModifierOnMultiQubit
  /\ Accounted /\ ErrorsArePlaced /\ TreeInOrder /\ TokensInOrder
ErrorsOnlyGrow == [][Len(errs') >= Len(errs) /\ (errs # <<>> => SubSeq(errs', 1, Len(errs)) = errs)]_vars
===================================================================================
