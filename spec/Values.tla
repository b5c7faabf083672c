---------------------------------- MODULE Values ----------------------------------
(* Values, types, promotion, overload resolution and constant evaluation.            *)
(* A constant is [c, kn, v, t, loc]: class "b", "i" or "f"; kn tells whether v is the *)
(* value (booleans, 64-bit integers); otherwise t is a term over the operations of    *)
(* the language (floating point is evaluated outside, by IEEE 754 arithmetic).        *)
(* A reference is [c |-> "var" | "ix", x, ix, loc]: x indexes the arena of variables. *)
EXTENDS Integers, Sequences, SequencesExt, BigInt
LOCAL INSTANCE Text

TypeName(c) == CASE c = "Q" -> "qubit" [] c = "B" -> "bit" [] c = "b" -> "bool" [] c = "i" -> "int" [] c = "f" -> "float"
                 [] c = "V" -> "qubit array" [] c = "W" -> "bit array"
Types == {"Q", "B", "b", "i", "f", "V", "W"}
Elem(c) == CASE c = "V" -> "Q" [] c = "W" -> "B"

BoolV(v, loc) == [c |-> "b", kn |-> TRUE, v |-> v, t |-> <<>>, loc |-> loc]
IntV(v, loc) == [c |-> "i", kn |-> TRUE, v |-> v, t |-> <<>>, loc |-> loc]
Sym(c, t, loc) == [c |-> c, kn |-> FALSE, v |-> FALSE, t |-> t, loc |-> loc]
Var(x, loc) == [c |-> "var", x |-> x, ix |-> <<>>, loc |-> loc]
Ix(x, ix, loc) == [c |-> "ix", x |-> x, ix |-> ix, loc |-> loc]

IsConst(v) == v.c \in {"b", "i", "f"}
Leaf(op, v) == [op |-> op, v |-> v]
Node(op, as) == [op |-> op, as |-> as]
AnyValue == [op |-> "any", as |-> <<>>]
TermOf(v) == IF ~v.kn THEN v.t ELSE IF v.c = "b" THEN Leaf("bool", v.v) ELSE Leaf("int", Str(ToDec(v.v)))
Relocate(v, loc) == [v EXCEPT !.loc = loc]
WithLoc(v, loc) == IF loc = <<>> THEN v ELSE Relocate(v, loc)

\* arena: sequence of variables with fields typ and size
TypeOf(arena, v) == IF IsConst(v) THEN v.c
                    ELSE IF v.c = "var" \/ Len(v.ix) # 1 THEN arena[v.x].typ ELSE Elem(arena[v.x].typ)
SizeOf(arena, v) == IF IsConst(v) THEN Big(1) ELSE IF v.c = "ix" THEN Big(Len(v.ix)) ELSE arena[v.x].size

CanPromote(from, to) == from = to \/ (from = "b" /\ to \in {"i", "f"}) \/ (from = "i" /\ to = "f")
\* <<>> when there is no promotion
Promote(arena, v, to) ==
  LET from == TypeOf(arena, v) IN
  IF from = to THEN <<v>>
  ELSE IF to = "i" /\ v.c = "b" THEN
    <<IF v.kn THEN IntV(Big(IF v.v THEN 1 ELSE 0), v.loc) ELSE Sym("i", Node("b2i", <<v.t>>), v.loc)>>
  ELSE IF to = "i" /\ v.c = "var" /\ from = "b" THEN <<v>>
  ELSE IF to = "f" /\ v.c = "b" THEN <<Sym("f", Node("b2f", <<TermOf(v)>>), v.loc)>>
  ELSE IF to = "f" /\ v.c = "i" THEN <<Sym("f", Node("i2f", <<TermOf(v)>>), v.loc)>>
  ELSE <<>>

\* the last registered applicable overload of a table of <<name, types, tag>>
Applicable(arena, types, args) ==
  Len(types) = Len(args) /\ \A i \in 1..Len(args) : Promote(arena, args[i], SubSeq(types, i, i)) # <<>>
RECURSIVE LastApplicable(_, _, _, _, _)
LastApplicable(arena, table, name, args, k) ==
  IF k = 0 THEN 0
  ELSE IF table[k][1] = name /\ Applicable(arena, table[k][2], args) THEN k ELSE LastApplicable(arena, table, name, args, k - 1)
ResolveOverload(arena, table, name, args) == LastApplicable(arena, table, name, args, Len(table))
Promoted(arena, types, args) == [i \in 1..Len(args) |-> Promote(arena, args[i], SubSeq(types, i, i))[1]]

-----------------------------------------------------------------------------------
Unary1(n) == <<n, "f", n>>
DefaultFunctions == <<
  <<"operator-", "f", "neg_f">>, <<"operator-", "i", "neg_i">>,
  <<"operator+", "ff", "add_f">>, <<"operator+", "ii", "add_i">>, <<"operator-", "ff", "sub_f">>, <<"operator-", "ii", "sub_i">>,
  <<"operator*", "ff", "mul_f">>, <<"operator*", "ii", "mul_i">>, <<"operator/", "ff", "div_f">>, <<"operator/", "ii", "div_i">>,
  <<"operator%", "ii", "mod_i">>, <<"operator**", "ff", "pow_f">>,
  <<"operator==", "ff", "eq_f">>, <<"operator!=", "ff", "ne_f">>, <<"operator>=", "ff", "ge_f">>,
  <<"operator>", "ff", "gt_f">>, <<"operator<=", "ff", "le_f">>, <<"operator<", "ff", "lt_f">>,
  <<"operator==", "ii", "eq_i">>, <<"operator!=", "ii", "ne_i">>, <<"operator>=", "ii", "ge_i">>,
  <<"operator>", "ii", "gt_i">>, <<"operator<=", "ii", "le_i">>, <<"operator<", "ii", "lt_i">>,
  <<"operator==", "bb", "eq_b">>, <<"operator!=", "bb", "ne_b">>, <<"operator>=", "bb", "ge_b">>,
  <<"operator>", "bb", "gt_b">>, <<"operator<=", "bb", "le_b">>, <<"operator<", "bb", "lt_b">>,
  <<"operator~", "i", "not_i">>, <<"operator&", "ii", "and_i">>, <<"operator^", "ii", "xor_i">>, <<"operator|", "ii", "or_i">>,
  <<"operator<<", "ii", "shl_i">>, <<"operator>>", "ii", "shr_i">>,
  <<"operator!", "b", "not_b">>, <<"operator&&", "bb", "and_b">>, <<"operator^^", "bb", "xor_b">>, <<"operator||", "bb", "or_b">>,
  <<"operator?:", "bff", "ite">>, <<"operator?:", "bii", "ite">>, <<"operator?:", "bbb", "ite">>,
  Unary1("sqrt"), Unary1("exp"), Unary1("log"), Unary1("sin"), Unary1("cos"), Unary1("tan"), Unary1("sinh"), Unary1("cosh"), Unary1("tanh"),
  Unary1("asin"), Unary1("acos"), Unary1("atan"), Unary1("asinh"), Unary1("acosh"), Unary1("atanh"),
  <<"abs", "f", "abs_f">>, <<"abs", "i", "abs_i">> >>

\* outcome of an evaluation
Good(v) == [s |-> "ok", v |-> v]
\* kind of error, where (<<>>: not known yet), what its message names, in order
Bad(kind, loc, names) == [s |-> "err", kind |-> kind, loc |-> loc, names |-> names]
\* depends on a value that this specification leaves to floating point or leaves open
Undecided == [s |-> "und"]
At0(r, loc) == IF r.s = "err" /\ r.loc = <<>> THEN [r EXCEPT !.loc = loc] ELSE r

InInt(x) == IF InInt64(x) THEN IntV(x, <<>>) ELSE Sym("i", AnyValue, <<>>)
IsFloatPredicate(op) == op \in {"eq_f", "ne_f", "ge_f", "gt_f", "le_f", "lt_f"}
IntPredicate(op, a, b) ==
  LET k == Cmp(a, b) IN
  CASE op = "eq_i" -> k = 0 [] op = "ne_i" -> k # 0 [] op = "ge_i" -> k >= 0 [] op = "gt_i" -> k > 0 [] op = "le_i" -> k <= 0 [] op = "lt_i" -> k < 0
BoolRank(b) == IF b THEN 1 ELSE 0
BoolOp(op, a, b) ==
  CASE op = "eq_b" -> a = b [] op = "ne_b" -> a # b [] op = "ge_b" -> BoolRank(a) >= BoolRank(b) [] op = "gt_b" -> BoolRank(a) > BoolRank(b)
    [] op = "le_b" -> BoolRank(a) <= BoolRank(b) [] op = "lt_b" -> BoolRank(a) < BoolRank(b)
    [] op = "and_b" -> a /\ b [] op = "xor_b" -> a # b [] op = "or_b" -> a \/ b
IntOp(op, a, b) ==
  CASE op = "add_i" -> InInt(Add(a, b)) [] op = "sub_i" -> InInt(Sub(a, b)) [] op = "mul_i" -> InInt(Mul(a, b))
    [] op = "and_i" -> IntV(BitAnd(a, b), <<>>) [] op = "or_i" -> IntV(BitOr(a, b), <<>>) [] op = "xor_i" -> IntV(BitXor(a, b), <<>>)
    [] op \in {"shl_i", "shr_i"} ->
       IF Fits30(b) /\ SmallOf(b) >= 0 /\ SmallOf(b) <= 63
       THEN IntV(IF op = "shl_i" THEN Shl64(a, SmallOf(b)) ELSE Shr64(a, SmallOf(b)), <<>>)
       ELSE Sym("i", AnyValue, <<>>)
ResultClass(op) ==
  CASE op \in {"eq_f", "ne_f", "ge_f", "gt_f", "le_f", "lt_f", "eq_i", "ne_i", "ge_i", "gt_i", "le_i", "lt_i", "eq_b", "ne_b", "ge_b", "gt_b", "le_b", "lt_b",
               "not_b", "and_b", "xor_b", "or_b"} -> "b"
    [] op \in {"neg_i", "add_i", "sub_i", "mul_i", "div_i", "mod_i", "not_i", "and_i", "xor_i", "or_i", "shl_i", "shr_i", "abs_i"} -> "i"
    [] OTHER -> "f"
Terms(as) == [i \in 1..Len(as) |-> TermOf(as[i])]
AllKnown(as) == \A i \in 1..Len(as) : as[i].kn

\* op on constants of the right classes
Apply(op, as) ==
  LET sym == Good(Sym(ResultClass(op), Node(op, Terms(as)), <<>>)) IN
  CASE op = "ite" -> IF as[1].kn THEN Good(Relocate(IF as[1].v THEN as[2] ELSE as[3], <<>>))
                     ELSE Good(Sym(as[2].c, Node("ite", Terms(as)), <<>>))
    [] op \in {"div_i", "mod_i"} ->
       IF ~as[2].kn THEN Undecided
       ELSE IF IsZero(as[2].v) THEN Bad("division by zero", <<>>, <<>>)
       ELSE IF ~as[1].kn THEN (IF as[2].v = Big(-1) THEN Undecided ELSE sym)
       ELSE IF as[1].v = MinInt64 /\ as[2].v = Big(-1) THEN Bad("division overflow", <<>>, <<>>)
       ELSE Good(IntV(IF op = "div_i" THEN Quo(as[1].v, as[2].v) ELSE Rem(as[1].v, as[2].v), <<>>))
    [] ~AllKnown(as) -> sym
    [] op = "neg_i" -> Good(InInt(Neg(as[1].v)))
    [] op = "abs_i" -> Good(InInt(Abs(as[1].v)))
    [] op = "not_i" -> Good(IntV(BitNot(as[1].v), <<>>))
    [] op = "not_b" -> Good(BoolV(~as[1].v, <<>>))
    [] op \in {"eq_i", "ne_i", "ge_i", "gt_i", "le_i", "lt_i"} -> Good(BoolV(IntPredicate(op, as[1].v, as[2].v), <<>>))
    [] op \in {"eq_b", "ne_b", "ge_b", "gt_b", "le_b", "lt_b", "and_b", "xor_b", "or_b"} -> Good(BoolV(BoolOp(op, as[1].v, as[2].v), <<>>))
    [] op \in {"add_i", "sub_i", "mul_i", "and_i", "or_i", "xor_i", "shl_i", "shr_i"} -> Good(IntOp(op, as[1].v, as[2].v))
    [] OTHER -> sym

RECURSIVE FirstDynamic(_, _)
FirstDynamic(as, i) == IF i > Len(as) THEN 0 ELSE IF ~IsConst(as[i]) THEN i ELSE FirstDynamic(as, i + 1)

TypeNames(arena, args) == [i \in 1..Len(args) |-> TypeName(TypeOf(arena, args[i]))]
\* call of a function of the language by name
Call(arena, table, name, args) ==
  LET k == ResolveOverload(arena, table, name, args) IN
  IF k = 0 THEN (IF \E j \in 1..Len(table) : table[j][1] = name
                 THEN Bad("no overload", <<>>, <<name>> \o TypeNames(arena, args)) ELSE Bad("unknown function", <<>>, <<name>>))
  ELSE LET ps == Promoted(arena, table[k][2], args) IN
       IF SubSeq(table[k][3], 1, 1) = "#"              \* registered by the user: answers its number
       THEN IF table[k][3] = "#-" THEN Good(<<>>) ELSE Good(IntV(FromDec(Codes(SubSeq(table[k][3], 2, Len(table[k][3])))), <<>>))
       ELSE LET d == FirstDynamic(ps, 1) IN
            IF d # 0 THEN Bad("dynamic", ps[d].loc, <<>>) ELSE Apply(table[k][3], ps)
===================================================================================
