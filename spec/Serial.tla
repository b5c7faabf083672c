----------------------------------- MODULE Serial -----------------------------------
(* Serialization of a result.  The tree is written as the sequence of its nodes in     *)
(* preorder; a node is numbered by its place, says how many children it has, and a     *)
(* link is the number of the node it points to.  Reading the sequence back gives the   *)
(* same tree, links included.  Source locations are not written.                       *)
EXTENDS Programs

G(class, payload, kids) == [c |-> class, p |-> payload, kids |-> kids, l |-> 0]
Link(class, payload, kids, to) == [c |-> class, p |-> payload, kids |-> kids, l |-> to]     \* to: number of the variable
\* the result as a generic tree
GValue(v) == IF v.c = "var" THEN Link("VariableRef", <<>>, <<>>, v.x)
             ELSE IF v.c = "ix" THEN Link("IndexRef", <<>>, [i \in 1..Len(v.ix) |-> G("ConstInt", <<v.ix[i]>>, <<>>)], v.x)
             ELSE G("Const", <<v.c, v.t>>, <<>>)
GValues(vs) == [i \in 1..Len(vs) |-> GValue(vs[i])]
RECURSIVE GGate(_)
GGate(g) == G("Gate", <<g.name, Str(Dec(Len(g.gate)))>>, [i \in 1..Len(g.gate) |-> GGate(g.gate[i])] \o GValues(g.parameters))
GStatement(s) ==
  CASE s.k = "gate" -> G("GateInstruction", <<s.name, s.types>>, <<GGate(s.gate)>> \o GValues(s.operands))
    [] s.k = "nongate" -> G("NonGateInstruction", <<s.name, s.types, Str(Dec(Len(s.operands)))>>, GValues(s.operands) \o GValues(s.parameters))
    [] OTHER -> G("AsmDeclaration", <<s.name, Str(Dec(Len(s.code)))>>, <<>>)
GProgram(m) ==
  G("Program", m.version,
    <<G("Block", <<>>, [i \in 1..Len(m.stmts) |-> GStatement(m.stmts[i])])>> \o [i \in 1..Len(m.vars) |-> G("Variable", <<m.vars[i].name, m.vars[i].typ, m.vars[i].size>>, <<>>)])

\* writing
RECURSIVE Size(_), Sizes(_, _), Flat(_), FlatAll(_, _)
Size(t) == 1 + Sizes(t.kids, 1)
Sizes(ts, i) == IF i > Len(ts) THEN 0 ELSE Size(ts[i]) + Sizes(ts, i + 1)
Flat(t) == <<[c |-> t.c, p |-> t.p, k |-> Len(t.kids), l |-> t.l]>> \o FlatAll(t.kids, 1)
FlatAll(ts, i) == IF i > Len(ts) THEN <<>> ELSE Flat(ts[i]) \o FlatAll(ts, i + 1)
\* a variable comes after the block, in order: its number in the sequence
VariableAt(t, x) == 1 + Size(t.kids[1]) + x
Write1(t) == LET f == Flat(t) IN [i \in 1..Len(f) |-> [f[i] EXCEPT !.l = IF @ = 0 THEN 0 ELSE VariableAt(t, @)]]

\* reading: [t, rest]
RECURSIVE Read(_, _), ReadMany(_, _, _, _)
Read(w, at) == LET ks == ReadMany(w, at + 1, w[at].k, <<>>) IN [t |-> [c |-> w[at].c, p |-> w[at].p, kids |-> ks.ts, l |-> w[at].l], at |-> ks.at]
ReadMany(w, at, k, acc) == IF k = 0 THEN [ts |-> acc, at |-> at] ELSE LET r == Read(w, at) IN ReadMany(w, r.at, k - 1, Append(acc, r.t))
RECURSIVE Relink(_, _)
Relink(t, offset) == [t EXCEPT !.l = IF @ = 0 THEN 0 ELSE @ - offset, !.kids = [i \in 1..Len(@) |-> Relink(@[i], offset)]]
ReadBack(w) == LET r == Read(w, 1) IN Relink(r.t, 1 + Size(r.t.kids[1]))

Sem == GProgram(RepSemantic(A, [i \in 1..Len(tree[1].version.items) |-> Str(ToDec(FromDec(tree[1].version.items[i])))]))
Accepted == pc = "done" /\ result.outcome = "accepted"
RoundTrip == Accepted => ReadBack(Write1(Sem)) = Sem
\* every link points to a variable node, every variable has its own number, and nothing is left over
LinksResolve == Accepted => LET w == Write1(Sem) IN \A i \in 1..Len(w) : w[i].l # 0 => w[i].l \in 1..Len(w) /\ w[w[i].l].c = "Variable"
NothingLeft == Accepted => LET w == Write1(Sem) IN Read(w, 1).at = Len(w) + 1
===================================================================================
