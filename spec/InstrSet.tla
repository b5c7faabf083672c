--------------------------------- MODULE InstrSet ---------------------------------
(* The cQASM 3.0 instruction set.  Type specifications: Q qubit, B bit, b bool,      *)
(* i int, f float, V qubit array, W bit array.                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Once

Single == {"H", "I", "mX90", "mY90", "mZ90", "Rn", "Rx", "Ry", "Rz", "S", "Sdag", "T", "Tdag", "U", "X", "X90", "Y", "Y90", "Z", "Z90"}
Double == {"CNOT", "CR", "CRk", "CZ", "SWAP"}
NonGates == {"measure", "reset", "init", "barrier", "wait"}
Modifiers == {"inv", "pow", "ctrl"}
NamedGates == Single \cup Double

\* parameter types; "" is none
GateParams(n) == CASE n \in {"Rx", "Ry", "Rz", "CR"} -> "f" [] n = "CRk" -> "i" [] n = "U" -> "fff" [] n = "Rn" -> "fffff" [] OTHER -> ""
ModifierParams(n) == IF n = "pow" THEN "f" ELSE ""
\* a non-gate may have several parameter lists
NonGateParams(n) == CASE n = "measure" -> {"", "fff"} [] n = "wait" -> {"i"} [] OTHER -> {""}
GateOperands(n) == IF n \in Single THEN <<"Q", "V">> ELSE <<"QQ", "QV", "VQ", "VV">>
NonGateOperands(n) == IF n = "measure" THEN <<"BQ", "WV", "BV", "WQ">> ELSE <<"Q", "V">>

Prefix1 == "1q"
Prefix2 == "2q"
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

IsSingleComposition(n) == StartsWith(n, Prefix1)
IsDoubleComposition(n) == StartsWith(n, Prefix2)
IsComposition(n) == IsSingleComposition(n) \/ IsDoubleComposition(n)
IsSingleGate(n) == n \in Single \/ IsSingleComposition(n)
IsDoubleGate(n) == n \in Double \/ IsDoubleComposition(n)
IsGate(n) == n \in NamedGates \/ IsComposition(n)
IsSingleModifier(n) == n \in {"inv", "pow"}
IsDoubleModifier(n) == n = "ctrl"

\* what a query for parameter types answers: [ok, has, t]
None == [ok |-> TRUE, has |-> FALSE, t |-> ""]
Some(t) == [ok |-> TRUE, has |-> TRUE, t |-> t]
NotFound == [ok |-> FALSE, has |-> FALSE, t |-> ""]
AsOption(t) == IF t = "" THEN None ELSE Some(t)
NamedGateParamTypes(n) == IF n \in NamedGates THEN AsOption(GateParams(n)) ELSE NotFound
ModifierParamTypes(n) == IF n \in Modifiers THEN AsOption(ModifierParams(n)) ELSE NotFound
\* the first list: measure answers with its empty one
NonGateParamTypes(n) == IF n \in NonGates THEN AsOption(IF "" \in NonGateParams(n) THEN "" ELSE CHOOSE t \in NonGateParams(n) : TRUE) ELSE NotFound
InstructionParamTypes(n) ==
  IF n \in NamedGates THEN NamedGateParamTypes(n) ELSE IF n \in NonGates THEN NonGateParamTypes(n) ELSE ModifierParamTypes(n)
NonGateParamTypesCount(n, k) ==
  IF n \in NonGates /\ \E t \in NonGateParams(n) : Len(t) = k THEN AsOption(CHOOSE t \in NonGateParams(n) : Len(t) = k) ELSE None

\* everything that the default registration makes resolvable: <<name, operand types>>
Signatures ==
  {<<n, o>> : n \in NamedGates, o \in {"Q", "V", "QQ", "QV", "VQ", "VV"}} \cup {<<n, o>> : n \in NonGates, o \in {"BQ", "WV", "BV", "WQ", "Q", "V"}}
InRange(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
AllDefaults ==
  {p \in Signatures : IF p[1] \in NamedGates THEN InRange(GateOperands(p[1]), p[2]) ELSE InRange(NonGateOperands(p[1]), p[2])}
  \cup {<<Prefix1 \o "_" \o n, o>> : n \in Single, o \in {"Q", "V"}}
  \cup {<<Prefix2 \o "_" \o n, o>> : n \in Single, o \in {"QQ", "QV", "VQ", "VV"}}
\* computed once (TLC does not keep the values of such definitions by itself)
ASSUME Keep(1, AllDefaults)
DefaultSignatures == TLCGet(1)
===================================================================================
