---------------------------------- MODULE Layout ----------------------------------
(* Layouts of one program: blanks, comments, empty statements and the kind of         *)
(* separator.  In a family of this module the first alternatives write the plain      *)
(* layout, all others differ from it in layout only.                                  *)
EXTENDS Programs
Plain == [f \in 1..Len(Families) |-> FlattenSeq([i \in 1..Len(Families[f]) |-> Families[f][i][1]])]
\* the tokens that carry meaning: runs of separators count once, and not at all at the ends
RECURSIVE Significant(_, _, _, _)
Significant(s, T, i, acc) ==
  IF i > Len(T) THEN acc
  ELSE LET t == T[i] IN
       IF IsSep(t) THEN Significant(s, T, i + 1, IF acc = <<>> THEN acc ELSE IF acc[Len(acc)][1] = "sep" THEN acc ELSE Append(acc, <<"sep", "">>))
       ELSE IF t.t = "EOF" /\ acc # <<>> /\ (IF acc # <<>> THEN acc[Len(acc)][1] = "sep" ELSE FALSE)
         THEN Significant(s, T, i + 1, Append(SubSeq(acc, 1, Len(acc) - 1), <<"EOF", <<>>>>))
       ELSE Significant(s, T, i + 1, Append(acc, <<t.t, TokText(s, t)>>))
SignificantOf(bytes) == LET d == Decode(bytes) IN Significant(d.cp, Lex(d.cp), 1, <<>>)
PlainTokens == [f \in 1..Len(Families) |-> SignificantOf(Plain[f])]
LSubmit == pc = "edit" /\ slot > Len(Families[fam]) /\ pc' = "text" /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result, fam, slot>>
LNext == Write \/ LSubmit \/ (PipelineNext /\ UNCHANGED <<fam, slot>>)
         \/ (pc = "done" /\ PrintT(ToJson([src |-> src, plain |-> Plain[fam]] @@ Report)) /\ pc' = "told" /\ UNCHANGED <<src, cp, toks, tree, A, n, errs, result, fam, slot>>)
LSpec == PInit /\ [][LNext]_<<vars, fam, slot>>
LayoutIsInsignificant == pc = "tokens" => Significant(cp, toks, 1, <<>>) = PlainTokens[fam]
===================================================================================
