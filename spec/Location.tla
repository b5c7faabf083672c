--------------------------------- MODULE Location ---------------------------------
(* Source locations: a range of positions in a file that may have a name.             *)
(* A position is <<line, column>>; lines and columns are indices into Nums, so that   *)
(* the whole 32-bit range is covered by values TLC can hold.  Nums[1] is zero:        *)
(* "unknown".  Texts are sequences of codes.  Env: NUMS, other numbers for Nums (a     *)
(* JSON array of numerals, ascending from zero).                                       *)
EXTENDS Integers, Sequences, Text, Json, IOUtils, Once
ASSUME Keep(11, IF "NUMS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.NUMS)
        ELSE <<"0", "1", "2", "9", "10", "32768", "2147483647", "2147483648", "4294967294", "4294967295">>)
Nums == TLCGet(11)
Num(n) == Codes(Nums[n])

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Lo(a, b) == IF Lt(b, a) THEN b ELSE a
Hi(a, b) == IF Lt(a, b) THEN b ELSE a
\* file: <<>> no name, <<bytes>> a name; an empty name is no name
MkRange(f, l) == [first |-> f, last |-> Hi(f, l)]
MkLoc(file, f, l) == [file |-> IF file = <<<<>>>> THEN <<>> ELSE file, r |-> MkRange(f, l)]
Unknown == [file |-> <<>>, r |-> MkRange(<<1, 1>>, <<1, 1>>)]
Expand(loc, p) == [loc EXCEPT !.r = [first |-> Lo(@.first, p), last |-> Hi(@.last, p)]]
Encloses(loc, p) == ~Lt(p, loc.r.first) /\ ~Lt(loc.r.last, p)

\* three-way comparisons: -1, 0, 1.  Locations are ordered by range only, but equal only with the same file.
CmpPos(a, b) == IF Lt(a, b) THEN -1 ELSE IF Lt(b, a) THEN 1 ELSE 0
CmpRange(r, s) == IF CmpPos(r.first, s.first) # 0 THEN CmpPos(r.first, s.first) ELSE CmpPos(r.last, s.last)

UnknownFile == Codes("<unknown file name>")
Colon == <<58>>
Dots == <<46, 46>>
ShowLoc(loc) ==
  LET f == loc.r.first l == loc.r.last
      name == IF loc.file = <<>> THEN UnknownFile ELSE loc.file[1]
  IN IF f[1] = 1 THEN name                                                             \* no line
     ELSE IF f[2] = 1 THEN name \o Colon \o Num(f[1]) \o (IF l[1] > f[1] THEN Dots \o Num(l[1]) ELSE <<>>)
     ELSE name \o Colon \o Num(f[1]) \o Colon \o Num(f[2])
          \o (IF l[1] = f[1] THEN (IF l[2] > f[2] THEN Dots \o Num(l[2]) ELSE <<>>) ELSE Dots \o Num(l[1]) \o Colon \o Num(l[2]))
RepLoc(loc) == [file |-> loc.file, first |-> <<Nums[loc.r.first[1]], Nums[loc.r.first[2]]>>, last |-> <<Nums[loc.r.last[1]], Nums[loc.r.last[2]]>>, str |-> ShowLoc(loc)]
===================================================================================
