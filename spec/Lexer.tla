---------------------------------- MODULE Lexer ----------------------------------
(* cQASM 3.0 scanner as a state machine over code points.                            *)
(* State: position (next code point), line (1-based), column (0-based), mode.        *)
(* One step consumes one lexeme: a token, or blanks and comments (skipped).          *)
EXTENDS Integers, Sequences, FiniteSets, Text

Keywords == {"version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit", "bit", "asm"}
Booleans == {"true", "false"}

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0 - 1
RECURSIVE SpanDigits(_, _), SpanId(_, _), SpanBlank(_, _), SpanLine(_, _), FindStarSlash(_, _), FindQuotes(_, _)
SpanDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SpanDigits(s, i + 1) ELSE i
SpanId(s, i) == IF i <= Len(s) /\ IsIdChar(s[i]) THEN SpanId(s, i + 1) ELSE i
\* long stretches are passed 64 at a time
Stretch(s, i, P(_)) == i % 64 = 0 /\ i + 63 <= Len(s) /\ \A k \in i..i + 63 : P(s[k])
Blank(c) == c \in {32, 9}
InLine(c) == c \notin {10, 13}
NoStar(c) == c # 42
NoQuote(c) == c # 39
SpanBlank(s, i) == IF Stretch(s, i, Blank) THEN SpanBlank(s, i + 64) ELSE IF i <= Len(s) /\ Blank(s[i]) THEN SpanBlank(s, i + 1) ELSE i
SpanLine(s, i) == IF Stretch(s, i, InLine) THEN SpanLine(s, i + 64) ELSE IF i <= Len(s) /\ InLine(s[i]) THEN SpanLine(s, i + 1) ELSE i
\* first index >= i at which "*/" (or "'''") starts; 0 when there is none
FindStarSlash(s, i) == IF Stretch(s, i, NoStar) THEN FindStarSlash(s, i + 64) ELSE IF i + 1 > Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i ELSE FindStarSlash(s, i + 1)
FindQuotes(s, i) == IF Stretch(s, i, NoQuote) THEN FindQuotes(s, i + 64) ELSE IF i + 2 > Len(s) THEN 0 ELSE IF s[i] = 39 /\ s[i + 1] = 39 /\ s[i + 2] = 39 THEN i ELSE FindQuotes(s, i + 1)

\* end of an exponent that starts at i, or i
SpanExp(s, i) ==
  IF At(s, i) \in {69, 101}
  THEN LET j == IF At(s, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1 IN IF IsDigit(At(s, j)) THEN SpanDigits(s, j) ELSE i
  ELSE i

One == [c \in 33..126 |-> CharOf[c]]
SingleSigns == {59, 58, 44, 46, 61, 91, 93, 40, 41, 43, 45, 126, 33, 42, 47, 37, 62, 60, 38, 94, 124, 63}
Doubles == {<<42, 42>>, <<60, 60>>, <<62, 62>>, <<62, 61>>, <<60, 61>>, <<61, 61>>, <<33, 61>>, <<38, 38>>, <<94, 94>>, <<124, 124>>}

\* the longest lexeme at i in the default mode: [t |-> type, e |-> end (exclusive)]
\* type "" is skipped text, "ERR" an unrecognisable character; signs are their own type
MatchDefault(s, i) ==
  LET c == s[i] IN
  IF c \in {32, 9} THEN [t |-> "", e |-> SpanBlank(s, i)]
  ELSE IF c = 10 THEN [t |-> "NL", e |-> i + 1]
  ELSE IF c = 13 THEN (IF At(s, i + 1) = 10 THEN [t |-> "NL", e |-> i + 2] ELSE [t |-> "ERR", e |-> i + 1])
  ELSE IF c = 47 /\ At(s, i + 1) = 47 THEN [t |-> "", e |-> SpanLine(s, i)]
  ELSE IF c = 47 /\ At(s, i + 1) = 42 /\ FindStarSlash(s, i + 2) # 0 THEN [t |-> "", e |-> FindStarSlash(s, i + 2) + 2]
  ELSE IF IsDigit(c)
    THEN LET d == SpanDigits(s, i) IN
         IF At(s, d) = 46 THEN [t |-> "FLOAT", e |-> SpanExp(s, SpanDigits(s, d + 1))] ELSE [t |-> "INT", e |-> d]
  ELSE IF c = 46 /\ IsDigit(At(s, i + 1)) THEN [t |-> "FLOAT", e |-> SpanExp(s, SpanDigits(s, i + 1))]
  ELSE IF IsIdStart(c)
    THEN LET e == SpanId(s, i)
             w == Str(SubSeq(s, i, e - 1))
         IN IF w \in Keywords THEN [t |-> w, e |-> e] ELSE IF w \in Booleans THEN [t |-> "BOOL", e |-> e] ELSE [t |-> "ID", e |-> e]
  ELSE IF c = 39
    THEN IF At(s, i + 1) = 39 /\ At(s, i + 2) = 39
         THEN LET q == FindQuotes(s, i + 3) IN IF q # 0 THEN [t |-> "RAW", e |-> q + 3] ELSE [t |-> "QUOTES", e |-> i + 3]
         ELSE [t |-> "ERR", e |-> i + 1]
  ELSE IF <<c, At(s, i + 1)>> \in Doubles THEN [t |-> One[c] \o One[s[i + 1]], e |-> i + 2]
  ELSE IF c \in SingleSigns THEN [t |-> One[c], e |-> i + 1]
  ELSE [t |-> "ERR", e |-> i + 1]

\* after "version" and up to the version number
MatchVersion(s, i) ==
  IF s[i] \in {32, 9} THEN [t |-> "", e |-> SpanBlank(s, i)]
  ELSE IF IsDigit(s[i])
    THEN LET d == SpanDigits(s, i) IN [t |-> "VNUM", e |-> IF At(s, d) = 46 /\ IsDigit(At(s, d + 1)) THEN SpanDigits(s, d + 1) ELSE d]
  ELSE [t |-> "ERR", e |-> i + 1]

RECURSIVE CountNl(_, _, _, _), LastNl(_, _, _)
CountNl(s, i, e, n) == IF i >= e THEN n ELSE IF i + 64 <= e /\ i % 64 = 0 THEN CountNl(s, i + 64, e, n + Cardinality({k \in i..i + 63 : s[k] = 10})) ELSE CountNl(s, i + 1, e, IF s[i] = 10 THEN n + 1 ELSE n)
LastNl(s, i, j) == IF j < i THEN i - 1 ELSE IF j % 64 = 0 /\ j - 63 >= i /\ \A k \in j - 63..j : s[k] # 10 THEN LastNl(s, i, j - 64) ELSE IF s[j] = 10 THEN j ELSE LastNl(s, i, j - 1)

LexInit == [pos |-> 1, line |-> 1, col |-> 0, version |-> FALSE, out |-> <<>>, stop |-> FALSE]

\* one step; st.pos <= Len(s) and not stopped
LexStep(s, st) ==
  LET m == IF st.version THEN MatchVersion(s, st.pos) ELSE MatchDefault(s, st.pos)
      nl == IF m.t \in {"", "NL", "RAW"} THEN CountNl(s, st.pos, m.e, 0) ELSE 0
      col == IF nl = 0 THEN st.col + m.e - st.pos ELSE m.e - 1 - LastNl(s, st.pos, m.e - 1)
      tok == [t |-> m.t, i |-> st.pos, e |-> m.e, l |-> st.line, c |-> st.col]
  IN [pos |-> m.e, line |-> st.line + nl, col |-> col,
      version |-> IF m.t = "version" THEN TRUE ELSE IF m.t = "VNUM" THEN FALSE ELSE st.version,
      out |-> IF m.t = "" THEN st.out ELSE Append(st.out, tok),
      stop |-> m.t = "ERR"]

EofToken(s, st) == [t |-> "EOF", i |-> Len(s) + 1, e |-> Len(s) + 1, l |-> st.line, c |-> st.col]
RECURSIVE LexAll(_, _)
LexAll(s, st) == IF st.stop THEN st ELSE IF st.pos > Len(s) THEN [st EXCEPT !.out = Append(@, EofToken(s, st)), !.stop = TRUE] ELSE LexAll(s, LexStep(s, st))
\* all tokens, the last one being EOF or ERR
Lex(s) == LexAll(s, LexInit).out

TokText(s, tok) == SubSeq(s, tok.i, tok.e - 1)
TokName(s, tok) == Str(TokText(s, tok))
\* location of a token: the column of the end is the start plus the size in characters
TokLoc(tok) == <<tok.l, tok.c + 1, tok.l, tok.c + 1 + tok.e - tok.i>>
\* location of a syntax error at a token: size in bytes, zero at the end of input and for lexical errors
ErrLoc(s, tok) == LET n == IF tok.t \in {"EOF", "ERR"} THEN 0 ELSE Bytes(s, tok.i, tok.e - 1) IN <<tok.l, tok.c + 1, tok.l, tok.c + 1 + n>>
===================================================================================
