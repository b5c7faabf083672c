---------------------------------- MODULE Version ----------------------------------
(* Versions: sequences of numbers below 2^31; missing components count as zero.          *)
EXTENDS Integers, Sequences, BigInt, Text
\* text -> components (decimal numerals), for a well-formed version: digits separated by dots, or nothing
RECURSIVE SplitDots(_, _, _, _)
SplitDots(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i] = 46 THEN SplitDots(s, i + 1, <<>>, Append(acc, cur)) ELSE SplitDots(s, i + 1, Append(cur, s[i]), acc)
WellFormed(s) == s = <<>> \/ \A i \in 1..Len(SplitDots(s, 1, <<>>, <<>>)) : LET c == SplitDots(s, 1, <<>>, <<>>)[i] IN c # <<>> /\ \A j \in 1..Len(c) : IsDigit(c[j])
MaxComponent == Big(2147483647)
\* [ok, items]: items are BigInts
Parse(s) ==
  LET cs == IF s = <<>> THEN <<>> ELSE SplitDots(s, 1, <<>>, <<>>)
      vs == [i \in 1..Len(cs) |-> FromDec(cs[i])]
  IN IF \E i \in 1..Len(vs) : Cmp(vs[i], MaxComponent) > 0 THEN [ok |-> FALSE, items |-> <<>>] ELSE [ok |-> TRUE, items |-> vs]
Item(v, i) == IF i <= Len(v) THEN v[i] ELSE Zero
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE CompareFrom(_, _, _)
CompareFrom(a, b, i) == IF i > MaxLen(a, b) THEN 0 ELSE LET c == Cmp(Item(a, i), Item(b, i)) IN IF c # 0 THEN c ELSE CompareFrom(a, b, i + 1)
Compare(a, b) == CompareFrom(a, b, 1)
Show(v) == Join([i \in 1..Len(v) |-> ToDec(v[i])], <<46>>)
===================================================================================
