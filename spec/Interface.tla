--------------------------------- MODULE Interface ---------------------------------
(* The public entry points.  Each takes a text, or the path of a file that holds it,  *)
(* runs the pipeline up to a stage and answers in one of four forms.  All of them are *)
(* one pipeline: a behaviour submits a program, lets it run, and then asks every      *)
(* entry point; what each answers depends on the outcome only.                        *)
EXTENDS Programs

\* stage; form; which file name locations carry
E(name, stage, form, file) == [n |-> name, stage |-> stage, form |-> form, file |-> file]
Entries == <<
  E("parse_string", "parse", "result", "given"), E("parse_file", "parse", "result", "given"),
  E("analyze_parsed", "analyze", "result", "given"), E("analyze_string", "analyze", "result", "given"),
  E("analyze_file", "analyze", "result", "path"), E("analyze_ast", "analyze", "tree", "given"),
  E("v3x_parse_string", "parse", "strings", "given"), E("v3x_parse_string_json", "parse", "json", "given"),
  E("v3x_parse_file", "parse", "strings", "none"), E("v3x_parse_file_json", "parse", "json", "none"),
  E("v3x_analyze_string", "analyze", "strings", "given"), E("v3x_analyze_string_json", "analyze", "json", "given"),
  E("v3x_analyze_file", "analyze", "strings", "none"), E("v3x_analyze_file_json", "analyze", "json", "none"),
  E("free_analyze_string", "analyze", "root", "given"), E("free_analyze_file", "analyze", "root", "none"),
  E("em_parse", "parse", "json", "given"), E("em_analyze", "analyze", "json", "given"), E("unwrap", "analyze", "root", "given") >>

Parsed == result.outcome \in {"accepted", "rejected", "undecided"}
Failures(e) == IF result.outcome = "undecided" /\ e.stage = "analyze" THEN -1
               ELSE IF ~Parsed THEN 1 ELSE IF e.stage = "parse" THEN 0 ELSE Len(errs)
\* number of strings, presence of a root, and whether the call throws
AnswerOf(e) ==
  LET k == Failures(e) IN
  [n |-> e.n, stage |-> e.stage, form |-> e.form, file |-> e.file, errors |-> k,
   strings |-> k + 1,                                                \* the tree or an empty string first
   tree |-> k = 0, throws |-> e.form = "root" /\ k > 0, skipped |-> e.form = "tree" /\ ~Parsed]

VARIABLES asked
IInit == PInit /\ asked = <<>>
Ask == /\ pc = "told" /\ Len(asked) < Len(Entries)
       /\ asked' = Append(asked, AnswerOf(Entries[Len(asked) + 1]))
       /\ UNCHANGED <<vars, fam, slot>>
TellAll == /\ pc = "told" /\ Len(asked) = Len(Entries) /\ PrintT(ToJson([src |-> src, answers |-> asked])) /\ pc' = "over"
           /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result, fam, slot, asked>>
INext == (PNext /\ UNCHANGED asked) \/ Ask \/ TellAll
ISpec == IInit /\ [][INext]_<<vars, fam, slot, asked>>

\* entry points of one stage agree
OneAnswer == \A i, j \in 1..Len(asked) : asked[i].stage = asked[j].stage => asked[i].errors = asked[j].errors
\* never both a tree and errors, never neither
TreeOrErrors == \A i \in 1..Len(asked) : asked[i].errors >= 0 => (asked[i].tree <=> asked[i].errors = 0)
\* the analysis fails whenever the parser does, with the same errors
AnalysisKeepsParseErrors == \A i, j \in 1..Len(asked) : asked[i].stage = "parse" /\ asked[j].stage = "analyze" /\ asked[i].errors > 0 => asked[j].errors = asked[i].errors
AskingChangesNothing == [][asked' # asked => UNCHANGED vars]_<<vars, fam, slot, asked>>
===================================================================================
