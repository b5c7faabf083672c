--------------------------------- MODULE Analysis ---------------------------------
(* The semantic analysis of a syntax tree, statement by statement.                    *)
(* A(nalyzer) is [scopes, arena]; scopes[1] is the innermost, the last the global one. *)
(* A scope is [names, fns, ins, vars, stmts]: names maps to values, vars lists the     *)
(* declared variables (indices into arena), fns and ins are overload tables.           *)
EXTENDS Integers, Sequences, Values, InstrSet, Lexer

Scope0 == [names |-> <<>>, fns |-> <<>>, ins |-> <<>>, vars |-> <<>>, stmts |-> <<>>]
Fresh == [scopes |-> <<Scope0>>, arena |-> <<>>]
\* names: sequence of <<name, value>>
RECURSIVE LookupIn(_, _, _)
LookupIn(names, n, i) == IF i > Len(names) THEN <<>> ELSE IF names[i][1] = n THEN <<names[i][2]>> ELSE LookupIn(names, n, i + 1)
RECURSIVE LookupScopes(_, _, _)
LookupScopes(scopes, n, i) ==
  IF i > Len(scopes) THEN <<>> ELSE LET r == LookupIn(scopes[i].names, n, 1) IN IF r # <<>> THEN r ELSE LookupScopes(scopes, n, i + 1)
ResolveVariable(A, n) == LET r == LookupScopes(A.scopes, n, 1) IN IF r = <<>> THEN Bad("unknown variable", <<>>, <<n>>) ELSE Good(r[1])

AddName(A, n, v) == [A EXCEPT !.scopes[1].names = Append(@, <<n, v>>)]
AddFunction(A, n, types, tag) == [A EXCEPT !.scopes[Len(A.scopes)].fns = Append(@, <<n, types, tag>>)]
AddInstruction(A, n, operands) == [A EXCEPT !.scopes[1].ins = Append(@, <<n, operands, "">>)]
AddStatement(A, st) == [A EXCEPT !.scopes[1].stmts = Append(@, st)]
PushScope(A) == [A EXCEPT !.scopes = <<Scope0>> \o @]
PopScope(A) == [A EXCEPT !.scopes = Tail(@)]

Constant(name) == Sym("f", Leaf("const", name), <<>>)
DefaultNames == <<<<"true", BoolV(TRUE, <<>>)>>, <<"false", BoolV(FALSE, <<>>)>>, <<"pi", Constant("pi")>>, <<"eu", Constant("eu")>>, <<"tau", Constant("tau")>>>>
DefaultInstructions == SetToSeq({<<p[1], p[2], "">> : p \in DefaultSignatures})
ASSUME Keep(2, [Fresh EXCEPT !.scopes = <<[Scope0 EXCEPT !.names = DefaultNames, !.fns = DefaultFunctions, !.ins = DefaultInstructions]>>])
Default == TLCGet(2)

GlobalFunctions(A) == A.scopes[Len(A.scopes)].fns

-----------------------------------------------------------------------------------
OperatorOf(k) ==
  CASE k \in {"UnaryMinusExpression", "SubtractionExpression"} -> "operator-" [] k = "BitwiseNotExpression" -> "operator~" [] k = "LogicalNotExpression" -> "operator!"
    [] k = "PowerExpression" -> "operator**" [] k = "ProductExpression" -> "operator*" [] k = "DivisionExpression" -> "operator/" [] k = "ModuloExpression" -> "operator%"
    [] k = "AdditionExpression" -> "operator+" [] k = "ShiftLeftExpression" -> "operator<<" [] k = "ShiftRightExpression" -> "operator>>"
    [] k = "CmpGtExpression" -> "operator>" [] k = "CmpLtExpression" -> "operator<" [] k = "CmpGeExpression" -> "operator>=" [] k = "CmpLeExpression" -> "operator<="
    [] k = "CmpEqExpression" -> "operator==" [] k = "CmpNeExpression" -> "operator!=" [] k = "BitwiseAndExpression" -> "operator&" [] k = "BitwiseXorExpression" -> "operator^"
    [] k = "BitwiseOrExpression" -> "operator|" [] k = "LogicalAndExpression" -> "operator&&" [] k = "LogicalXorExpression" -> "operator^^" [] k = "LogicalOrExpression" -> "operator||"

MaxRange == 5000      \* longer index ranges are not expanded here

RECURSIVE Eval(_, _), Raw(_, _), EvalAll(_, _, _, _), IndexEntries(_, _, _, _), RangeFrom(_, _, _)
\* expression, located: errors without a place take that of the expression, and so does the value
Eval(A, e) == LET r == Raw(A, e) IN IF r.s = "ok" THEN Good(WithLoc(r.v, e.loc)) ELSE At0(r, e.loc)
\* [s |-> "ok", v |-> values] or the first failure
EvalAll(A, es, i, acc) ==
  IF i > Len(es) THEN Good(acc) ELSE LET r == Eval(A, es[i]) IN IF r.s # "ok" THEN r ELSE EvalAll(A, es, i + 1, Append(acc, r.v))

CallOn(A, name, es) ==
  LET as == EvalAll(A, es, 1, <<>>) IN
  IF as.s # "ok" THEN as
  ELSE LET r == Call(A.arena, GlobalFunctions(A), name, as.v) IN IF r.s = "ok" /\ r.v = <<>> THEN Bad("empty function result", <<>>, <<>>) ELSE r

\* constant integer: [s |-> "ok", v |-> BigInt]
ConstInt(A, e) ==
  LET r == Raw(A, e) IN
  IF r.s # "ok" THEN r
  ELSE LET p == Promote(A.arena, r.v, "i") IN
       IF p = <<>> THEN Bad("not an integer", e.loc, <<>>)
       ELSE IF ~IsConst(p[1]) THEN Bad("dynamic index", e.loc, <<>>)
       ELSE IF ~p[1].kn THEN Undecided ELSE Good(p[1].v)
RangeFrom(a, b, acc) == IF Cmp(a, b) > 0 THEN acc ELSE RangeFrom(Add(a, Big(1)), b, Append(acc, a))
IndexEntries(A, es, i, acc) ==
  IF i > Len(es) THEN Good(acc)
  ELSE IF es[i].k = "IndexItem" THEN
    LET r == ConstInt(A, es[i].index) IN IF r.s # "ok" THEN r ELSE IndexEntries(A, es, i + 1, Append(acc, r.v))
  ELSE LET a == ConstInt(A, es[i].first) IN
       IF a.s # "ok" THEN a
       ELSE LET b == ConstInt(A, es[i].last) IN
            IF b.s # "ok" THEN b
            ELSE IF Cmp(a.v, b.v) > 0 THEN Bad("range order", <<>>, <<>>)
            ELSE IF Cmp(Sub(b.v, a.v), Big(MaxRange)) > 0 THEN Undecided
            ELSE IndexEntries(A, es, i + 1, RangeFrom(a.v, b.v, acc))
RECURSIVE OutOfRange(_, _, _)
OutOfRange(ix, size, i) == IF i > Len(ix) THEN 0 ELSE IF ix[i].neg \/ Cmp(ix[i], size) >= 0 THEN i ELSE OutOfRange(ix, size, i + 1)
IndexOf(A, e) ==
  LET r == ResolveVariable(A, e.expr.name) IN
  IF r.s # "ok" THEN r
  ELSE IF r.v.c # "var" \/ (IF r.v.c = "var" THEN A.arena[r.v.x].typ \notin {"V", "W"} ELSE FALSE)
    THEN Bad("not indexable", <<>>, <<TypeName(TypeOf(A.arena, r.v))>>)
  ELSE LET ix == IndexEntries(A, e.indices.items, 1, <<>>) IN
       IF ix.s # "ok" THEN ix
       ELSE LET size == A.arena[r.v.x].size
                o == OutOfRange(ix.v, size, 1)
            IN IF o # 0 THEN Bad("index range", <<>>, <<Str(ToDec(ix.v[o])), Str(ToDec(size))>>) ELSE Good(Ix(r.v.x, ix.v, <<>>))

Raw(A, e) ==
  CASE e.k = "Identifier" -> ResolveVariable(A, e.name)
    [] e.k = "BooleanLiteral" -> Good(BoolV(e.value, <<>>))
    [] e.k = "IntegerLiteral" -> Good(IntV(FromDec(e.value), <<>>))
    [] e.k = "FloatLiteral" -> Good(Sym("f", Leaf("lit", Str(e.value)), <<>>))
    [] e.k = "Index" -> At0(IndexOf(A, e), e.loc)
    [] e.k = "FunctionCall" -> CallOn(A, e.name.name, IF e.arguments = <<>> THEN <<>> ELSE e.arguments[1].items)
    [] e.k = "TernaryConditionalExpression" -> CallOn(A, "operator?:", <<e.cond, e.if_true, e.if_false>>)
    [] e.k \in {"UnaryMinusExpression", "BitwiseNotExpression", "LogicalNotExpression"} -> CallOn(A, OperatorOf(e.k), <<e.expr>>)
    [] OTHER -> CallOn(A, OperatorOf(e.k), <<e.lhs, e.rhs>>)

-----------------------------------------------------------------------------------
RECURSIVE FirstMismatch(_, _, _, _)
FirstMismatch(arena, types, args, i) ==
  IF i > Len(args) THEN 0 ELSE IF CanPromote(TypeOf(arena, args[i]), SubSeq(types, i, i)) THEN FirstMismatch(arena, types, args, i + 1) ELSE i
\* parameters of a gate, modifier or non-gate
Parameters(A, name, args) ==
  LET mismatch(types) == FirstMismatch(A.arena, types, args, 1)
      fit(types) == IF mismatch(types) # 0 THEN Bad("parameter type", <<>>, <<name, TypeName(TypeOf(A.arena, args[mismatch(types)]))>>)
                    ELSE LET ps == [i \in 1..Len(args) |-> Promote(A.arena, args[i], SubSeq(types, i, i))] IN
                         IF \E i \in 1..Len(ps) : ps[i] = <<>> THEN Undecided ELSE Good([i \in 1..Len(ps) |-> ps[i][1]])
  IN IF name \in NonGates THEN
       IF \E t \in NonGateParams(name) : Len(t) = Len(args) THEN fit(CHOOSE t \in NonGateParams(name) : Len(t) = Len(args))
       ELSE IF args = <<>> THEN Good(<<>>)
       ELSE Bad("parameter count", <<>>, <<name, Str(Dec(Len(args)))>>)
     ELSE IF ~InstructionParamTypes(name).ok THEN Bad("unknown instruction", <<>>, <<name>>)
     ELSE LET types == InstructionParamTypes(name).t IN
          IF Len(types) = Len(args) THEN fit(types)
          ELSE Bad("parameter count", <<>>, IF types = "" THEN <<name, Str(Dec(Len(args)))>> ELSE <<name, Str(Dec(Len(types))), Str(Dec(Len(args)))>>)

\* g: gate of the result; terminal and resolution names
RECURSIVE Terminal(_)
Terminal(g) == IF g.gate = <<>> THEN g.name ELSE Terminal(g.gate[1])
ResolutionName(g) == IF g.gate = <<>> THEN g.name ELSE (IF IsSingleModifier(g.name) THEN Prefix1 ELSE Prefix2) \o "_" \o Terminal(g.gate[1])

RECURSIVE GateOf(_, _)
GateOf(A, node) ==
  LET inner == IF node.gate = <<>> THEN Good(<<>>) ELSE GateOf(A, node.gate[1])
      r == IF inner.s # "ok" THEN inner
           ELSE LET es == EvalAll(A, node.parameters.items, 1, <<>>) IN
                IF es.s # "ok" THEN es
                ELSE LET ps == Parameters(A, node.name.name, es.v) IN
                     IF ps.s # "ok" THEN ps
                     ELSE IF node.gate # <<>> /\ (IF node.gate # <<>> THEN IsDoubleGate(ResolutionName(inner.v)) ELSE FALSE)
                       THEN Bad("modifier on multi-qubit gate", <<>>, <<>>)
                     ELSE Good([name |-> node.name.name, gate |-> IF node.gate = <<>> THEN <<>> ELSE <<inner.v>>, parameters |-> ps.v, loc |-> node.loc])
  IN At0(r, node.loc)

RECURSIVE ResolveInScopes(_, _, _, _, _)
\* <<>> or the operand types of the chosen instruction
ResolveInScopes(A, scopes, i, name, args) ==
  IF i > Len(scopes) THEN <<>>
  ELSE LET k == ResolveOverload(A.arena, scopes[i].ins, name, args) IN
       IF k = 0 THEN ResolveInScopes(A, scopes, i + 1, name, args) ELSE <<scopes[i].ins[k][2]>>
ResolveInstruction(A, name, args) ==
  LET r == ResolveInScopes(A, A.scopes, 1, name, args) IN
  IF r = <<>> THEN Bad("unknown instruction overload", <<>>, <<name>> \o TypeNames(A.arena, args))
  ELSE Good([types |-> r[1], operands |-> Promoted(A.arena, r[1], args)])

\* number of qubits (bits) that an operand stands for; zero for anything else
CountOf(A, v, scalar, array) ==
  IF IsConst(v) THEN Zero ELSE IF A.arena[v.x].typ \in {scalar, array} THEN SizeOf(A.arena, v) ELSE Zero
QubitCount(A, v) == CountOf(A, v, "Q", "V")
BitCount(A, v) == CountOf(A, v, "B", "W")
RECURSIVE SumCounts(_, _, _, _, _)
SumCounts(A, vs, scalar, array, i) == IF i > Len(vs) THEN Zero ELSE Add(CountOf(A, vs[i], scalar, array), SumCounts(A, vs, scalar, array, i + 1))
SameQubitCounts(A, vs) == \A i \in 1..Len(vs) : QubitCount(A, vs[i]) = QubitCount(A, vs[1])
SameQubitBitCounts(A, vs) == SumCounts(A, vs, "Q", "V", 1) = SumCounts(A, vs, "B", "W", 1)

\* every statement: [s, A, ...]; on failure A may have changed (a redeclared variable stays listed)
Did(A) == [s |-> "ok", A |-> A]
Failed(A, r, loc) == IF r.s = "und" THEN [s |-> "und", A |-> A] ELSE [s |-> "err", A |-> A, e |-> At0(r, loc)]

DeclareVariable(A, node) ==
  LET kind == node.typ.name.name
      size == IF node.typ.size = <<>> THEN Big(1) ELSE FromDec(node.typ.size[1].value)
      typ == IF node.typ.size = <<>> THEN (IF kind = "qubit" THEN "Q" ELSE "B") ELSE (IF kind = "qubit" THEN "V" ELSE "W")
      B == [A EXCEPT !.arena = Append(@, [name |-> node.name.name, typ |-> typ, size |-> size]), !.scopes[1].vars = Append(@, Len(A.arena) + 1)]
  IN IF IsZero(size) THEN Failed(A, Bad("array size", <<>>, <<kind>>), node.loc)
     ELSE IF LookupIn(A.scopes[1].names, node.name.name, 1) # <<>> THEN Failed(B, Bad("redeclaration", <<>>, <<node.name.name>>), node.loc)
     ELSE Did(AddName(B, node.name.name, Var(Len(B.arena), <<>>)))

ApplyGate(A, node) ==
  LET r == LET g == GateOf(A, node.gate) IN
           IF g.s # "ok" THEN g
           ELSE LET os == EvalAll(A, node.operands.items, 1, <<>>) IN
                IF os.s # "ok" THEN os
                ELSE LET ins == ResolveInstruction(A, ResolutionName(g.v), os.v) IN
                     IF ins.s # "ok" THEN ins
                     ELSE IF ~SameQubitCounts(A, ins.v.operands) THEN Bad("operand sizes", <<>>, <<>>)
                     ELSE Good([k |-> "gate", name |-> ResolutionName(g.v), types |-> ins.v.types, gate |-> g.v, operands |-> ins.v.operands, loc |-> node.loc])
  IN IF r.s = "ok" THEN Did(AddStatement(A, r.v)) ELSE Failed(A, r, node.loc)

RunNonGate(A, node) ==
  LET n == node.name.name
      r == LET os == EvalAll(A, node.operands.items, 1, <<>>) IN
           IF os.s # "ok" THEN os
           ELSE LET ins == ResolveInstruction(A, n, os.v) IN
                IF ins.s # "ok" THEN ins
                ELSE LET es == EvalAll(A, node.parameters.items, 1, <<>>) IN
                     IF es.s # "ok" THEN es
                     ELSE LET ps == Parameters(A, n, es.v) IN
                          IF ps.s # "ok" THEN ps
                          ELSE IF n = "measure" /\ ~SameQubitBitCounts(A, ins.v.operands) THEN Bad("measure sizes", <<>>, <<>>)
                          ELSE Good([k |-> "nongate", name |-> n, types |-> ins.v.types, parameters |-> ps.v, operands |-> ins.v.operands, loc |-> node.loc])
  IN IF r.s = "ok" THEN Did(AddStatement(A, r.v)) ELSE Failed(A, r, node.loc)

RunAsm(A, node) == Did(AddStatement(A, [k |-> "asm", name |-> node.backend_name.name, code |-> node.backend_code, loc |-> <<>>]))

\* one statement of the block
Step(A, node) ==
  CASE node.k = "Variable" -> DeclareVariable(A, node)
    [] node.k = "GateInstruction" -> ApplyGate(A, node)
    [] node.k = "NonGateInstruction" -> RunNonGate(A, node)
    [] node.k = "AsmDeclaration" -> RunAsm(A, node)

\* version gate: items are digit sequences; trailing zeros do not matter
RECURSIVE StripZeros(_)
StripZeros(items) == IF items # <<>> /\ IsZero(FromDec(items[Len(items)])) THEN StripZeros(SubSeq(items, 1, Len(items) - 1)) ELSE items
SameVersion(a, b) == LET x == StripZeros(a) y == StripZeros(b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : FromDec(x[i]) = FromDec(y[i])
ApiVersion == <<<<51>>, <<48>>>>
VersionOk(node) == SameVersion(node.items, ApiVersion)
===================================================================================
