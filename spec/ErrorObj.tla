--------------------------------- MODULE ErrorObj ---------------------------------
(* Errors: a message and, once known, a place.  The first place wins.                 *)
EXTENDS Location
UnknownMessage == Codes("<unknown error message>")
MkErr(msg, loc) == [msg |-> IF msg = <<>> THEN UnknownMessage ELSE msg, loc |-> loc]      \* loc: <<>> or <<location>>
Context(e, loc) == IF e.loc = <<>> THEN [e EXCEPT !.loc = loc] ELSE e
What(e) == Codes("Error") \o (IF e.loc = <<>> THEN <<>> ELSE Codes(" at ") \o ShowLoc(e.loc[1])) \o Codes(": ") \o e.msg
\* the LSP diagnostic, as a tree: position numbers, message bytes, and the file as a percent-encoded URI
Pos(p) == [line |-> Nums[p[1]], character |-> Nums[p[2]]]
Lsp(e) ==
  [start |-> IF e.loc = <<>> THEN Pos(<<1, 1>>) ELSE Pos(e.loc[1].r.first), end |-> IF e.loc = <<>> THEN Pos(<<1, 1>>) ELSE Pos(e.loc[1].r.last),
   message |-> e.msg, encoded |-> JsonEncode(e.msg), severity |-> 1,
   uri |-> IF e.loc = <<>> THEN <<>> ELSE IF e.loc[1].file = <<>> THEN <<>> ELSE <<Codes("file:///") \o UrlEncode(e.loc[1].file[1])>>]
===================================================================================
