--------------------------------- MODULE Grammar ---------------------------------
(* cQASM 3.0 grammar.  Parsers are functions of the token sequence T and an index.   *)
(* They return [ok, p, n]: next index and node, or - when not ok - the index of the   *)
(* first token that cannot continue any sentence.                                     *)
(* Nodes are records [k |-> class, loc |-> <<>> or <<l1, c1, l2, c2>>, ...].          *)
EXTENDS Integers, Sequences, Lexer

Fail(p) == [ok |-> FALSE, p |-> p, n |-> <<>>]
Ok(p, n) == [ok |-> TRUE, p |-> p, n |-> n]

\* binary operators: level (higher binds tighter), node class
Level(t) ==
  CASE t = "||" -> 2 [] t = "^^" -> 3 [] t = "&&" -> 4 [] t = "|" -> 5 [] t = "^" -> 6 [] t = "&" -> 7
    [] t \in {"==", "!="} -> 8 [] t \in {"<", ">", "<=", ">="} -> 9 [] t \in {"<<", ">>"} -> 10
    [] t \in {"+", "-"} -> 11 [] t \in {"*", "/", "%"} -> 12 [] t = "**" -> 13 [] OTHER -> 0
TernaryLevel == 1
LogicalNotLevel == 14
BitwiseNotLevel == 15
SignLevel == 16
Class(t) ==
  CASE t = "||" -> "LogicalOrExpression" [] t = "^^" -> "LogicalXorExpression" [] t = "&&" -> "LogicalAndExpression"
    [] t = "|" -> "BitwiseOrExpression" [] t = "^" -> "BitwiseXorExpression" [] t = "&" -> "BitwiseAndExpression"
    [] t = "==" -> "CmpEqExpression" [] t = "!=" -> "CmpNeExpression" [] t = "<" -> "CmpLtExpression" [] t = ">" -> "CmpGtExpression"
    [] t = "<=" -> "CmpLeExpression" [] t = ">=" -> "CmpGeExpression" [] t = "<<" -> "ShiftLeftExpression" [] t = ">>" -> "ShiftRightExpression"
    [] t = "+" -> "AdditionExpression" [] t = "-" -> "SubtractionExpression" [] t = "*" -> "ProductExpression" [] t = "/" -> "DivisionExpression"
    [] t = "%" -> "ModuloExpression" [] t = "**" -> "PowerExpression"

Identifier(x, loc) == [k |-> "Identifier", loc |-> loc, name |-> x]
NoExpressions == [k |-> "ExpressionList", loc |-> <<>>, items |-> <<>>]

RECURSIVE Expr(_, _, _, _), Operand(_, _, _), Climb(_, _, _, _), ExprList(_, _, _), ExprListRest(_, _, _, _), IndexList(_, _, _, _), IndexEntry(_, _, _)

\* s: source text; m: lowest level allowed
Expr(s, T, i, m) ==
  LET a == Operand(s, T, i) IN IF ~a.ok THEN a ELSE Climb(s, T, a, m)

\* prefix operators bind tighter than every binary operator
Operand(s, T, i) ==
  LET t == T[i] IN
  CASE t.t = "(" ->
         LET a == Expr(s, T, i + 1, 0) IN
         IF ~a.ok THEN a ELSE IF T[a.p].t # ")" THEN Fail(a.p) ELSE Ok(a.p + 1, a.n)
    [] t.t = "+" -> Expr(s, T, i + 1, SignLevel)
    [] t.t = "-" -> LET a == Expr(s, T, i + 1, SignLevel) IN
                    IF ~a.ok THEN a ELSE Ok(a.p, [k |-> "UnaryMinusExpression", loc |-> TokLoc(t), expr |-> a.n])
    [] t.t = "~" -> LET a == Expr(s, T, i + 1, BitwiseNotLevel) IN
                    IF ~a.ok THEN a ELSE Ok(a.p, [k |-> "BitwiseNotExpression", loc |-> TokLoc(t), expr |-> a.n])
    [] t.t = "!" -> LET a == Expr(s, T, i + 1, LogicalNotLevel) IN
                    IF ~a.ok THEN a ELSE Ok(a.p, [k |-> "LogicalNotExpression", loc |-> TokLoc(t), expr |-> a.n])
    [] t.t = "BOOL" -> Ok(i + 1, [k |-> "BooleanLiteral", loc |-> TokLoc(t), value |-> TokName(s, t) = "true"])
    [] t.t = "INT" -> Ok(i + 1, [k |-> "IntegerLiteral", loc |-> TokLoc(t), value |-> TokText(s, t)])
    [] t.t = "FLOAT" -> Ok(i + 1, [k |-> "FloatLiteral", loc |-> TokLoc(t), value |-> TokText(s, t)])
    [] t.t = "ID" ->
         IF T[i + 1].t = "(" THEN
           IF T[i + 2].t = ")" THEN Ok(i + 3, [k |-> "FunctionCall", loc |-> TokLoc(t), name |-> Identifier(TokName(s, t), <<>>), arguments |-> <<>>])
           ELSE LET a == ExprList(s, T, i + 2) IN
                IF ~a.ok THEN a ELSE IF T[a.p].t # ")" THEN Fail(a.p)
                ELSE Ok(a.p + 1, [k |-> "FunctionCall", loc |-> TokLoc(t), name |-> Identifier(TokName(s, t), <<>>), arguments |-> <<a.n>>])
         ELSE IF T[i + 1].t = "[" THEN
           LET a == IndexList(s, T, i + 2, <<>>) IN
           IF ~a.ok THEN a ELSE IF T[a.p].t # "]" THEN Fail(a.p)
           ELSE Ok(a.p + 1, [k |-> "Index", loc |-> TokLoc(t), expr |-> Identifier(TokName(s, t), <<>>),
                             indices |-> [k |-> "IndexList", loc |-> <<>>, items |-> a.n]])
         ELSE Ok(i + 1, Identifier(TokName(s, t), TokLoc(t)))
    [] OTHER -> Fail(i)

\* a: operand parsed so far
Climb(s, T, a, m) ==
  LET t == T[a.p] IN
  IF t.t = "?" /\ TernaryLevel >= m THEN
    LET x == Expr(s, T, a.p + 1, 0) IN
    IF ~x.ok THEN x ELSE IF T[x.p].t # ":" THEN Fail(x.p)
    ELSE LET y == Expr(s, T, x.p + 1, TernaryLevel) IN       \* right associative
         IF ~y.ok THEN y
         ELSE Climb(s, T, Ok(y.p, [k |-> "TernaryConditionalExpression", loc |-> TokLoc(t), cond |-> a.n, if_true |-> x.n, if_false |-> y.n]), m)
  ELSE IF Level(t.t) > 0 /\ Level(t.t) >= m THEN
    LET b == Expr(s, T, a.p + 1, IF t.t = "**" THEN Level(t.t) ELSE Level(t.t) + 1) IN
    IF ~b.ok THEN b ELSE Climb(s, T, Ok(b.p, [k |-> Class(t.t), loc |-> TokLoc(t), lhs |-> a.n, rhs |-> b.n]), m)
  ELSE a

ExprListRest(s, T, i, acc) ==
  LET a == Expr(s, T, i, 0) IN
  IF ~a.ok THEN a
  ELSE IF T[a.p].t = "," THEN ExprListRest(s, T, a.p + 1, Append(acc, a.n))
  ELSE Ok(a.p, [k |-> "ExpressionList", loc |-> <<>>, items |-> Append(acc, a.n)])
ExprList(s, T, i) == ExprListRest(s, T, i, <<>>)

IndexEntry(s, T, i) ==
  LET a == Expr(s, T, i, 0) IN
  IF ~a.ok THEN a
  ELSE IF T[a.p].t = ":" THEN
    LET b == Expr(s, T, a.p + 1, 0) IN
    IF ~b.ok THEN b ELSE Ok(b.p, [k |-> "IndexRange", loc |-> <<>>, first |-> a.n, last |-> b.n])
  ELSE Ok(a.p, [k |-> "IndexItem", loc |-> <<>>, index |-> a.n])
IndexList(s, T, i, acc) ==
  LET a == IndexEntry(s, T, i) IN
  IF ~a.ok THEN a ELSE IF T[a.p].t = "," THEN IndexList(s, T, a.p + 1, Append(acc, a.n)) ELSE Ok(a.p, Append(acc, a.n))

-----------------------------------------------------------------------------------
IsSep(t) == t.t \in {"NL", ";"}
EndsStatement(t) == IsSep(t) \/ t.t = "EOF"
\* a candidate statement counts only when a separator or the end follows
Ended(T, r) == IF r.ok /\ ~EndsStatement(T[r.p]) THEN Fail(r.p) ELSE r
Max2(a, b) == IF a > b THEN a ELSE b
\* first success in order, else the farthest failure
Best(a, b) == IF a.ok THEN a ELSE IF b.ok THEN b ELSE Fail(Max2(a.p, b.p))

Gate(name, gate, params, loc) == [k |-> "Gate", loc |-> loc, name |-> Identifier(name, <<>>), gate |-> gate, parameters |-> params, annotations |-> <<>>]

RECURSIVE GateInstr(_, _, _)
\* [ok, p, n |-> [gate, operands]]
NamedGate(s, T, i) ==
  LET t == T[i]
      bare == LET o == ExprList(s, T, i + 1) IN
              Ended(T, IF o.ok THEN Ok(o.p, [gate |-> Gate(TokName(s, t), <<>>, NoExpressions, TokLoc(t)), operands |-> o.n]) ELSE o)
      parametrised ==
        LET a == ExprList(s, T, i + 2) IN
        IF ~a.ok THEN a ELSE IF T[a.p].t # ")" THEN Fail(a.p)
        ELSE LET o == ExprList(s, T, a.p + 1) IN
             Ended(T, IF o.ok THEN Ok(o.p, [gate |-> Gate(TokName(s, t), <<>>, a.n, TokLoc(t)), operands |-> o.n]) ELSE o)
  IN IF T[i + 1].t = "(" THEN Best(parametrised, bare) ELSE bare
GateInstr(s, T, i) ==
  LET t == T[i] IN
  CASE t.t \in {"inv", "ctrl"} ->
         IF T[i + 1].t # "." THEN Fail(i + 1)
         ELSE LET g == GateInstr(s, T, i + 2) IN
              IF ~g.ok THEN g ELSE Ok(g.p, [g.n EXCEPT !.gate = Gate(t.t, <<g.n.gate>>, NoExpressions, TokLoc(t))])
    [] t.t = "pow" ->
         IF T[i + 1].t # "(" THEN Fail(i + 1)
         ELSE LET e == Expr(s, T, i + 2, 0) IN
              IF ~e.ok THEN e ELSE IF T[e.p].t # ")" THEN Fail(e.p) ELSE IF T[e.p + 1].t # "." THEN Fail(e.p + 1)
              ELSE LET g == GateInstr(s, T, e.p + 2) IN
                   IF ~g.ok THEN g
                   ELSE Ok(g.p, [g.n EXCEPT !.gate = Gate("pow", <<g.n.gate>>, [NoExpressions EXCEPT !.items = <<e.n>>], TokLoc(t))])
    [] t.t = "ID" -> NamedGate(s, T, i)
    [] OTHER -> Fail(i)
GateStatement(s, T, i) ==
  LET g == GateInstr(s, T, i) IN
  IF ~g.ok THEN g ELSE Ok(g.p, [k |-> "GateInstruction", loc |-> g.n.gate.loc, gate |-> g.n.gate, operands |-> g.n.operands, annotations |-> <<>>])

NonGate(t, operands, params) ==
  [k |-> "NonGateInstruction", loc |-> TokLoc(t), name |-> [k |-> "Keyword", loc |-> <<>>, name |-> t.t],
   operands |-> [NoExpressions EXCEPT !.items = operands], parameters |-> params, annotations |-> <<>>]

Measure(s, T, i) ==
  LET a == Expr(s, T, i, 0) IN
  IF ~a.ok THEN a ELSE IF T[a.p].t # "=" THEN Fail(a.p) ELSE IF T[a.p + 1].t # "measure" THEN Fail(a.p + 1)
  ELSE LET m == a.p + 1
           plain == LET b == Expr(s, T, m + 1, 0) IN
                    Ended(T, IF b.ok THEN Ok(b.p, NonGate(T[m], <<a.n, b.n>>, NoExpressions)) ELSE b)
           parametrised ==
             LET x == ExprList(s, T, m + 2) IN
             IF ~x.ok THEN x ELSE IF T[x.p].t # ")" THEN Fail(x.p)
             ELSE LET b == Expr(s, T, x.p + 1, 0) IN
                  Ended(T, IF b.ok THEN Ok(b.p, NonGate(T[m], <<a.n, b.n>>, x.n)) ELSE b)
       IN IF T[m + 1].t = "(" THEN Best(parametrised, plain) ELSE plain
OneOperand(s, T, i) ==
  LET a == Expr(s, T, i + 1, 0) IN Ended(T, IF a.ok THEN Ok(a.p, NonGate(T[i], <<a.n>>, NoExpressions)) ELSE a)
Wait(s, T, i) ==
  IF T[i + 1].t # "(" THEN Fail(i + 1)
  ELSE LET a == Expr(s, T, i + 2, 0) IN
       IF ~a.ok THEN a ELSE IF T[a.p].t # ")" THEN Fail(a.p)
       ELSE LET b == Expr(s, T, a.p + 1, 0) IN
            Ended(T, IF b.ok THEN Ok(b.p, NonGate(T[i], <<b.n>>, [NoExpressions EXCEPT !.items = <<a.n>>])) ELSE b)

RECURSIVE ExpectFrom(_, _, _, _)
\* index of the first token from i on that differs from the wanted types; 0 if none does
ExpectFrom(T, i, ts, j) == IF j > Len(ts) THEN 0 ELSE IF T[i].t # ts[j] THEN i ELSE ExpectFrom(T, i + 1, ts, j + 1)
Expect(T, i, ts) == ExpectFrom(T, i, ts, 1)

Asm(s, T, i) ==
  LET bad == Expect(T, i, <<"asm", "(", "ID", ")", "RAW">>) IN
  IF bad # 0 THEN Fail(bad)
  ELSE Ended(T, Ok(i + 5, [k |-> "AsmDeclaration", loc |-> <<>>, backend_name |-> Identifier(TokName(s, T[i + 2]), <<>>),
                           backend_code |-> Encode(RemoveTripleQuotes(TokText(s, T[i + 4]))), annotations |-> <<>>]))

\* the node of the size has no location; sizeloc is where an out-of-range size is reported
Variable(s, T, i) ==
  LET arr == T[i + 1].t = "["
      bad == IF arr THEN Expect(T, i, <<T[i].t, "[", "INT", "]", "ID">>) ELSE Expect(T, i, <<T[i].t, "ID">>)
      id == IF arr THEN T[i + 4] ELSE T[i + 1]
      tl == TokLoc(T[i])
      typ == [k |-> "Type",
              loc |-> IF arr THEN <<tl[1], tl[2], T[i + 3].l, T[i + 3].c + 2>> ELSE tl,
              name |-> [k |-> "Keyword", loc |-> <<>>, name |-> T[i].t],
              size |-> IF arr THEN <<[k |-> "IntegerLiteral", loc |-> <<>>, value |-> TokText(s, T[i + 2])]>> ELSE <<>>,
              sizeloc |-> IF arr THEN TokLoc(T[i + 2]) ELSE <<>>]
  IN IF bad # 0 THEN Fail(bad)
     ELSE Ended(T, Ok(IF arr THEN i + 5 ELSE i + 2,
            [k |-> "Variable", loc |-> TokLoc(id), name |-> Identifier(TokName(s, id), <<>>), typ |-> typ, annotations |-> <<>>]))

Statement(s, T, i) ==
  LET t == T[i].t IN
  CASE t \in {"qubit", "bit"} -> Variable(s, T, i)
    [] t \in {"inv", "pow", "ctrl"} -> GateStatement(s, T, i)
    [] t = "ID" -> Best(GateStatement(s, T, i), Measure(s, T, i))
    [] t \in {"reset", "init", "barrier"} -> OneOperand(s, T, i)
    [] t = "wait" -> Wait(s, T, i)
    [] t = "asm" -> Asm(s, T, i)
    [] OTHER -> Measure(s, T, i)

RECURSIVE SkipSeps(_, _), Statements(_, _, _, _)
SkipSeps(T, i) == IF IsSep(T[i]) THEN SkipSeps(T, i + 1) ELSE i
\* i is just after the version or a statement: a separator or the end
Statements(s, T, i, acc) ==
  IF ~EndsStatement(T[i]) THEN Fail(i)
  ELSE LET j == SkipSeps(T, i) IN
       IF T[j].t = "EOF" THEN Ok(j, acc)
       ELSE LET st == Statement(s, T, j) IN IF ~st.ok THEN st ELSE Statements(s, T, st.p, Append(acc, st.n))

RECURSIVE DotAt(_, _)
DotAt(cs, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = 46 THEN i ELSE DotAt(cs, i + 1)
VersionItems(cs) == LET d == DotAt(cs, 1) IN IF d = 0 THEN <<cs>> ELSE <<SubSeq(cs, 1, d - 1), SubSeq(cs, d + 1, Len(cs))>>

\* [ok, p, n]
ProgramOf(s, T) ==
  LET i == SkipSeps(T, 1)
      bad == Expect(T, i, <<"version", "VNUM">>)
  IN IF bad # 0 THEN Fail(bad)
     ELSE LET b == Statements(s, T, i + 2, <<>>) IN
          IF ~b.ok THEN b
          ELSE Ok(b.p, [k |-> "Program", loc |-> <<>>,
                        version |-> [k |-> "Version", loc |-> TokLoc(T[i + 1]), items |-> VersionItems(TokText(s, T[i + 1]))],
                        block |-> [k |-> "GlobalBlock", loc |-> <<>>, statements |-> b.n]])
===================================================================================
