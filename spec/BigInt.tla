--------------------------------- MODULE BigInt ---------------------------------
(* Integers beyond TLC's 32 bits: [neg, m] with m the magnitude, little-endian     *)
(* limbs in base 2^15 without leading zero limbs; zero is [neg |-> FALSE, m |-> <<>>] *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
LOCAL INSTANCE Text

Base == 32768
Trim(m) == LET RECURSIVE T(_) T(k) == IF k > 0 /\ m[k] = 0 THEN T(k - 1) ELSE k IN SubSeq(m, 1, T(Len(m)))
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxN(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpFrom(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpFrom(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _, _)
MagAddFrom(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == Limb(a, i) + Limb(b, i) + carry IN MagAddFrom(a, b, i + 1, s \div Base, Append(acc, s % Base))
MagAdd(a, b) == MagAddFrom(a, b, 1, 0, <<>>)
RECURSIVE MagSubFrom(_, _, _, _, _)
MagSubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - Limb(b, i) - borrow IN MagSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + Base ELSE s))
\* a >= b
MagSub(a, b) == Trim(MagSubFrom(a, b, 1, 0, <<>>))
RECURSIVE MagMulSmallFrom(_, _, _, _, _)
MagMulSmallFrom(a, k, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == a[i] * k + carry IN MagMulSmallFrom(a, k, i + 1, s \div Base, Append(acc, s % Base))
MagMulSmall(a, k) == IF k = 0 THEN <<>> ELSE MagMulSmallFrom(a, k, 1, 0, <<>>)
Zeros(n) == [i \in 1..n |-> 0]
MagShiftLimbs(a, n) == IF a = <<>> THEN a ELSE Zeros(n) \o a
RECURSIVE MagMulFrom(_, _, _, _)
MagMulFrom(a, b, j, acc) == IF j > Len(b) THEN acc ELSE MagMulFrom(a, b, j + 1, MagAdd(acc, MagShiftLimbs(MagMulSmall(a, b[j]), j - 1)))
MagMul(a, b) == Trim(MagMulFrom(a, b, 1, <<>>))
\* by a number below the base: [q, r]
RECURSIVE MagDivSmallFrom(_, _, _, _, _)
MagDivSmallFrom(a, k, i, r, acc) ==
  IF i = 0 THEN [q |-> Trim(acc), r |-> r]
  ELSE LET s == r * Base + a[i] IN MagDivSmallFrom(a, k, i - 1, s % k, <<s \div k>> \o acc)
MagDivSmall(a, k) == MagDivSmallFrom(a, k, Len(a), 0, <<>>)
\* long division, limb by limb; each quotient limb by bisection
RECURSIVE QLimb(_, _, _, _)
QLimb(r, b, lo, hi) ==      \* largest q in lo..hi with q*b <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN IF MagCmp(MagMulSmall(b, mid), r) <= 0 THEN QLimb(r, b, mid, hi) ELSE QLimb(r, b, lo, mid - 1)
RECURSIVE MagDivFrom(_, _, _, _, _)
MagDivFrom(a, b, i, r, acc) ==
  IF i = 0 THEN [q |-> Trim(acc), r |-> r]
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           q == QLimb(r1, b, 0, Base - 1)
       IN MagDivFrom(a, b, i - 1, MagSub(r1, MagMulSmall(b, q)), <<q>> \o acc)
MagDiv(a, b) == IF Len(b) = 1 THEN LET d == MagDivSmall(a, b[1]) IN [q |-> d.q, r |-> IF d.r = 0 THEN <<>> ELSE <<d.r>>]
                ELSE MagDivFrom(a, b, Len(a), <<>>, <<>>)

----------------------------------------------------------------------------------
Mk(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)
\* from a TLC integer
Big(n) == IF n < 0 THEN Mk(TRUE, MagOf(-n)) ELSE Mk(FALSE, MagOf(n))
Zero == Big(0)
Neg(x) == Mk(~x.neg, x.m)
Abs(x) == Mk(FALSE, x.m)
Cmp(x, y) == IF x.neg # y.neg THEN (IF x.neg THEN -1 ELSE 1)
             ELSE IF x.neg THEN MagCmp(y.m, x.m) ELSE MagCmp(x.m, y.m)
Add(x, y) == IF x.neg = y.neg THEN Mk(x.neg, MagAdd(x.m, y.m))
             ELSE IF MagCmp(x.m, y.m) >= 0 THEN Mk(x.neg, MagSub(x.m, y.m)) ELSE Mk(y.neg, MagSub(y.m, x.m))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.neg # y.neg, MagMul(x.m, y.m))
\* truncation towards zero; the remainder takes the sign of the dividend
Quo(x, y) == Mk(x.neg # y.neg, MagDiv(x.m, y.m).q)
Rem(x, y) == Mk(x.neg, MagDiv(x.m, y.m).r)
IsZero(x) == x.m = <<>>

RECURSIVE PowerOf2(_)
PowerOf2(k) == IF k < 15 THEN <<2 ^ k>> ELSE <<0>> \o PowerOf2(k - 15)
Two63 == PowerOf2(63)
MaxInt64 == Mk(FALSE, MagSub(Two63, <<1>>))
MinInt64 == Mk(TRUE, Two63)
InInt64(x) == IF x.neg THEN MagCmp(x.m, Two63) <= 0 ELSE MagCmp(x.m, Two63) < 0

\* two's complement on 75 bits: 5 limbs
Pad5(m) == [i \in 1..5 |-> Limb(m, i)]
NotLimbs(m) == [i \in 1..5 |-> Base - 1 - m[i]]
ToTwos(x) == IF x.neg THEN NotLimbs(Pad5(MagSub(x.m, <<1>>))) ELSE Pad5(x.m)
FromTwos(t) == IF t[5] >= Base \div 2 THEN Mk(TRUE, MagAdd(Trim(NotLimbs(t)), <<1>>)) ELSE Mk(FALSE, Trim(t))
BitNot(x) == Sub(Neg(x), Big(1))
BitOp(Op(_, _), x, y) == LET a == ToTwos(x) b == ToTwos(y) IN FromTwos([i \in 1..5 |-> Op(a[i], b[i])])
BitAnd(x, y) == BitOp(LAMBDA a, b : a & b, x, y)
BitOr(x, y) == BitOp(LAMBDA a, b : a | b, x, y)
BitXor(x, y) == BitOp(LAMBDA a, b : a ^^ b, x, y)
\* reduction to 64 bits two's complement (C++20 left shift)
Wrap64(x) == LET t == ToTwos(Mk(FALSE, SubSeq(Pad5(x.m), 1, 5)))
                 low == [i \in 1..5 |-> IF i = 5 THEN t[5] % 16 ELSE t[i]]     \* 4*15 + 4 = 64 bits
                 v == Trim(low)
                 two64 == PowerOf2(64)
                 w == IF x.neg /\ v # <<>> THEN MagSub(two64, v) ELSE v
             IN IF MagCmp(w, Two63) >= 0 THEN Mk(TRUE, MagSub(two64, w)) ELSE Mk(FALSE, w)
\* 0 <= k <= 63
Shl64(x, k) == Wrap64([neg |-> x.neg, m |-> MagMul(x.m, PowerOf2(k))])
Shr64(x, k) == LET d == MagDiv(x.m, PowerOf2(k))
               IN IF x.neg THEN Mk(TRUE, IF d.r = <<>> THEN d.q ELSE MagAdd(d.q, <<1>>)) ELSE Mk(FALSE, d.q)

\* decimal digits (code points) to number and back
RECURSIVE MagFromDec(_, _, _)
MagFromDec(cs, i, acc) == IF i > Len(cs) THEN acc ELSE MagFromDec(cs, i + 1, MagAdd(MagMulSmall(acc, 10), IF cs[i] = 48 THEN <<>> ELSE <<cs[i] - 48>>))
FromDec(cs) == Mk(FALSE, MagFromDec(cs, 1, <<>>))
RECURSIVE MagToDec(_)
MagToDec(m) == LET d == MagDivSmall(m, 10) IN (IF d.q = <<>> THEN <<>> ELSE MagToDec(d.q)) \o <<48 + d.r>>
ToDec(x) == (IF x.neg THEN <<45>> ELSE <<>>) \o (IF x.m = <<>> THEN <<48>> ELSE MagToDec(x.m))
\* to a TLC integer; only when it fits 30 bits
Fits30(x) == Len(x.m) <= 2
SmallOf(x) == (IF x.neg THEN -1 ELSE 1) * (Limb(x.m, 1) + Base * Limb(x.m, 2))
==================================================================================
