--------------------------------- MODULE Programs ---------------------------------
(* The programs that the pipeline is explored on.  A family is a sequence of slots,   *)
(* every slot a sequence of alternatives (texts, as sequences of bytes).  A behaviour *)
(* first writes a source text, choosing one alternative after the other, then submits *)
(* it to the pipeline; the finished behaviour prints its report.                      *)
EXTENDS Pipeline, Json, IOUtils, Once
VARIABLES fam, slot
ASSUME Keep(29, JsonDeserialize(IOEnv.FAMILIES))
Families == TLCGet(29)
PInit == \E f \in 1..Len(Families) : fam = f /\ slot = 1 /\ src = <<>> /\ pc = "edit" /\ cp = <<>> /\ toks = <<>> /\ tree = <<>> /\ A = Fresh /\ n = 0 /\ errs = <<>> /\ result = NoResult
Write ==
  /\ pc = "edit" /\ slot <= Len(Families[fam])
  /\ \E i \in 1..Len(Families[fam][slot]) : src' = src \o Families[fam][slot][i]
  /\ slot' = slot + 1 /\ UNCHANGED <<fam, pc, cp, toks, tree, A, n, errs, result>>
\* the same text is the same program, whichever choices wrote it
Submit ==
  /\ pc = "edit" /\ slot > Len(Families[fam])
  /\ pc' = "text" /\ fam' = 0 /\ slot' = 0 /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result>>
Emit == /\ pc = "done" /\ PrintT(ToJson([src |-> src] @@ Report)) /\ pc' = "told" /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result, fam, slot>>
PNext == Write \/ Submit \/ (PipelineNext /\ UNCHANGED <<fam, slot>>) \/ Emit
PSpec == PInit /\ [][PNext]_<<vars, fam, slot>>
SameSource == [][pc # "edit" => src' = src]_<<vars, fam, slot>>
===================================================================================
