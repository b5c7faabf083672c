-------------------------------- MODULE MC_InstrSet --------------------------------
(* Queries on the instruction set, for names of a file (Env: CASES, array of strings).      *)
EXTENDS InstrSet, Json, IOUtils, Once
ASSUME Keep(15, JsonDeserialize(IOEnv.CASES))
Names == TLCGet(15)
VARIABLES id, told
IInit == told = FALSE /\ id \in 1..Len(Names)
n == Names[id]
Tell == ~told /\ told' = TRUE /\ UNCHANGED id /\ PrintT(ToJson([n |-> n,
  is_single_qubit_named_gate |-> n \in Single, is_two_qubit_named_gate |-> n \in Double, is_named_gate |-> n \in NamedGates,
  is_single_qubit_gate_composition |-> IsSingleComposition(n), is_two_qubit_gate_composition |-> IsDoubleComposition(n), is_gate_composition |-> IsComposition(n),
  is_single_qubit_gate |-> IsSingleGate(n), is_two_qubit_gate |-> IsDoubleGate(n), is_gate |-> IsGate(n),
  is_measure |-> n = "measure", is_reset |-> n = "reset", is_init |-> n = "init", is_barrier |-> n = "barrier", is_wait |-> n = "wait", is_non_gate |-> n \in NonGates,
  is_inv_gate_modifier |-> n = "inv", is_pow_gate_modifier |-> n = "pow", is_ctrl_gate_modifier |-> n = "ctrl",
  is_single_qubit_gate_modifier |-> IsSingleModifier(n), is_two_qubit_gate_modifier |-> IsDoubleModifier(n), is_gate_modifier |-> n \in Modifiers,
  named_gate_params |-> NamedGateParamTypes(n), non_gate_params |-> NonGateParamTypes(n), modifier_params |-> ModifierParamTypes(n),
  instruction_params |-> InstructionParamTypes(n), by_count |-> [k \in 1..7 |-> NonGateParamTypesCount(n, k - 1)]]))
ISpec == IInit /\ [][Tell]_<<id, told>>
\* the categories are consistent with one another
Partition == ~(n \in NamedGates /\ n \in NonGates) /\ ~(IsGate(n) /\ n \in NonGates) /\ ~(IsSingleGate(n) /\ IsDoubleGate(n)) /\ ~(n \in Modifiers /\ (IsGate(n) \/ n \in NonGates))
Known == InstructionParamTypes(n).ok = (n \in NamedGates \cup NonGates \cup Modifiers)
FirstIsACount == n \in NonGates /\ NonGateParamTypes(n).has => NonGateParamTypesCount(n, Len(NonGateParamTypes(n).t)) = NonGateParamTypes(n)
EveryNameResolves == n \in NamedGates \cup NonGates => \E p \in DefaultSignatures : p[1] = n
\* every gate and every composition accepts scalars and arrays alike
Broadcast == \A p \in DefaultSignatures : \A i \in 1..Len(p[2]) :
    LET c == SubSeq(p[2], i, i)
        d == CASE c = "Q" -> "V" [] c = "V" -> "Q" [] c = "B" -> "W" [] c = "W" -> "B"
    IN IF p[1] = n THEN <<p[1], SubSeq(p[2], 1, i - 1) \o d \o SubSeq(p[2], i + 1, Len(p[2]))>> \in DefaultSignatures ELSE TRUE
===================================================================================
