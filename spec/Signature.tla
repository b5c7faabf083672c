--------------------------------- MODULE Signature ---------------------------------
(* Descriptors: instructions (name and operand types), functions (name, parameter types *)
(* and return type), references to nothing, and primitive values.  They are compared,    *)
(* printed, written as a map from keys to values, and read back.                         *)
(* A type is a letter of a type specification and a size.                                *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL INSTANCE Text
LOCAL INSTANCE Values

Ins(name, types) == [k |-> "ins", name |-> name, types |-> types, ret |-> <<>>]
Fn(name, types, ret) == [k |-> "fn", name |-> name, types |-> types, ret |-> <<ret>>]
Nothing == [k |-> "none", name |-> <<>>, types |-> <<>>, ret |-> <<>>]
Prim(kind, parts) == [k |-> kind, name |-> <<>>, types |-> parts, ret |-> <<>>]
Prims == {"str", "bool", "int", "float", "complex", "axis", "version"}

TypeText(t) == Codes(TypeName(t[1]))
Comma == <<44, 32>>
Shown(d) ==
  CASE d.k = "none" -> Codes("unresolved")
    [] d.k = "ins" -> d.name \o <<40>> \o Join([i \in 1..Len(d.types) |-> TypeText(d.types[i])], Comma) \o <<41>>
    [] d.k = "fn" -> d.name \o <<40>> \o Join([i \in 1..Len(d.types) |-> TypeText(d.types[i])], Comma) \o <<41>> \o Codes(" -> ") \o TypeText(d.ret[1])
    [] OTHER -> <<>>
Same(a, b) == a = b

\* the map a descriptor is written as: what the readers in C++ and in Python expect
Keys(k) == CASE k = "ins" -> <<"name", "operand_types">> [] k = "fn" -> <<"name", "param_types", "return_type">>
             [] k = "complex" -> <<"r", "i">> [] k = "axis" -> <<"x", "y", "z">> [] k = "none" -> <<>> [] OTHER -> <<"x">>
Parts(d) == CASE d.k = "ins" -> <<d.name, d.types>> [] d.k = "fn" -> <<d.name, d.types, d.ret[1]>>
              [] d.k \in {"complex", "axis"} -> d.types [] d.k = "none" -> <<>> [] OTHER -> <<d.types>>
Write(d) == [i \in 1..Len(Keys(d.k)) |-> <<Keys(d.k)[i], Parts(d)[i]>>]
At(w, key) == w[CHOOSE i \in 1..Len(w) : w[i][1] = key][2]
\* a reader knows whether it reads a reference to an instruction, to a function, or a primitive
Read(family, w) ==
  CASE family \in {"ins", "fn"} /\ w = <<>> -> Nothing
    [] family = "ins" -> Ins(At(w, "name"), At(w, "operand_types"))
    [] family = "fn" -> Fn(At(w, "name"), At(w, "param_types"), At(w, "return_type"))
    [] family = "complex" -> Prim("complex", <<At(w, "r"), At(w, "i")>>)
    [] family = "axis" -> Prim("axis", <<At(w, "x"), At(w, "y"), At(w, "z")>>)
    [] OTHER -> Prim(family, At(w, "x"))
====================================================================================
