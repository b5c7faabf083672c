---------------------------------- MODULE Text ----------------------------------
(* Text is a sequence of numbers: bytes (0..255) as the library receives them, or  *)
(* code points after decoding.  Names that the specification compares are TLA+     *)
(* strings, built from code points with Str.                                       *)
EXTENDS Integers, Sequences, SequencesExt

Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* printable ASCII code -> one-character string
CharOf == [c \in 32..126 |-> SubSeq(Chars, c - 31, c - 31)]
CodeOf == [s \in {CharOf[c] : c \in 32..126} |-> CHOOSE c \in 32..126 : CharOf[c] = s]

RECURSIVE StrFrom(_, _, _)
StrFrom(cs, i, acc) == IF i > Len(cs) THEN acc ELSE StrFrom(cs, i + 1, acc \o CharOf[cs[i]])
\* printable code points -> string
Str(cs) == StrFrom(cs, 1, "")
\* string of printable ASCII -> code points
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsIdStart(c) == IsAlpha(c) \/ c = 95
IsIdChar(c) == IsIdStart(c) \/ IsDigit(c)
\* an identifier of the language
IsIdentifier(cs) == Len(cs) > 0 /\ IsIdStart(cs[1]) /\ \A i \in 1..Len(cs) : IsIdChar(cs[i])

----------------------------------------------------------------------------------
(* Utilities of the library on byte strings (C locale).                            *)
LowerByte(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToLower(cs) == [i \in 1..Len(cs) |-> LowerByte(cs[i])]
EqualNoCase(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowerByte(a[i]) = LowerByte(b[i])

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n          \* upper case
HexByte(c) == <<HexDigit(c \div 16), HexDigit(c % 16)>>
Unreserved(c) == IsAlnum(c) \/ c \in {45, 46, 95, 126}      \* RFC 3986: - . _ ~
UrlByte(c) == IF Unreserved(c) THEN <<c>> ELSE <<37>> \o HexByte(c)
UrlEncode(cs) == FoldLeft(LAMBDA acc, c : acc \o UrlByte(c), <<>>, cs)
\* inverse, on the image of UrlEncode
UnHex(c) == IF IsDigit(c) THEN c - 48 ELSE c - 55
RECURSIVE UrlDecodeFrom(_, _)
UrlDecodeFrom(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i] = 37 THEN <<16 * UnHex(cs[i + 1]) + UnHex(cs[i + 2])>> \o UrlDecodeFrom(cs, i + 3)
  ELSE <<cs[i]>> \o UrlDecodeFrom(cs, i + 1)
UrlDecode(cs) == UrlDecodeFrom(cs, 1)

\* characters that may not appear as such inside a JSON string
JsonSpecial(c) == c < 32 \/ c = 34 \/ c = 92
JsonByte(c) == IF JsonSpecial(c) THEN <<92, 117, 48, 48>> \o HexByte(c) ELSE <<c>>
JsonEncode(cs) == FoldLeft(LAMBDA acc, c : acc \o JsonByte(c), <<>>, cs)
RECURSIVE JsonDecodeFrom(_, _)
JsonDecodeFrom(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i] = 92 THEN <<16 * UnHex(cs[i + 4]) + UnHex(cs[i + 5])>> \o JsonDecodeFrom(cs, i + 6)
  ELSE <<cs[i]>> \o JsonDecodeFrom(cs, i + 1)
JsonDecode(cs) == JsonDecodeFrom(cs, 1)

RemoveTripleQuotes(cs) == SubSeq(cs, 4, Len(cs) - 3)

----------------------------------------------------------------------------------
(* UTF-8 (strict).  Decode gives [ok, cp].                                          *)
Cont(bs, i) == i <= Len(bs) /\ bs[i] >= 128 /\ bs[i] <= 191
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(bs, i, acc) ==
  IF i > Len(bs) THEN [ok |-> TRUE, cp |-> acc]
  ELSE LET b == bs[i] IN
    IF b < 128 THEN DecodeFrom(bs, i + 1, Append(acc, b))
    ELSE IF b >= 194 /\ b <= 223 /\ Cont(bs, i + 1)
      THEN DecodeFrom(bs, i + 2, Append(acc, (b - 192) * 64 + bs[i + 1] - 128))
    ELSE IF b >= 224 /\ b <= 239 /\ Cont(bs, i + 1) /\ Cont(bs, i + 2)
      THEN LET v == (b - 224) * 4096 + (bs[i + 1] - 128) * 64 + bs[i + 2] - 128
           IN IF v >= 2048 /\ ~(v >= 55296 /\ v <= 57343) THEN DecodeFrom(bs, i + 3, Append(acc, v)) ELSE [ok |-> FALSE, cp |-> acc]
    ELSE IF b >= 240 /\ b <= 244 /\ Cont(bs, i + 1) /\ Cont(bs, i + 2) /\ Cont(bs, i + 3)
      THEN LET v == (b - 240) * 262144 + (bs[i + 1] - 128) * 4096 + (bs[i + 2] - 128) * 64 + bs[i + 3] - 128
           IN IF v >= 65536 /\ v <= 1114111 THEN DecodeFrom(bs, i + 4, Append(acc, v)) ELSE [ok |-> FALSE, cp |-> acc]
    ELSE [ok |-> FALSE, cp |-> acc]
Decode(bs) == IF \A i \in 1..Len(bs) : bs[i] < 128 THEN [ok |-> TRUE, cp |-> bs] ELSE DecodeFrom(bs, 1, <<>>)
ByteLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
EncodeCp(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(cs) == FoldLeft(LAMBDA acc, c : acc \o EncodeCp(c), <<>>, cs)
Bytes(cs, i, j) == FoldLeft(LAMBDA acc, c : acc + ByteLen(c), 0, SubSeq(cs, i, j))

----------------------------------------------------------------------------------
(* Decimal numbers                                                                  *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE DecDigits(n \div 10) \o <<48 + (n % 10)>>
\* a number below 2^31 as code points
Dec(n) == DecDigits(n)
\* join sequences of code points with a separator
RECURSIVE JoinFrom(_, _, _)
JoinFrom(xs, sep, i) == IF i > Len(xs) THEN <<>> ELSE (IF i > 1 THEN sep ELSE <<>>) \o xs[i] \o JoinFrom(xs, sep, i + 1)
Join(xs, sep) == JoinFrom(xs, sep, 1)
==================================================================================
