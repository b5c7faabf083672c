------------------------------- MODULE MC_Location -------------------------------
(* A location is made and then expanded step by step.  Env: NS, the numbers used      *)
(* (JSON array of indices into Nums), DEPTH, the number of expansions; or SCRIPTS,     *)
(* histories to follow: a JSON array of [file, f, l, adds].                            *)
EXTENDS Location, Once, FiniteSets
ASSUME Keep(12, IF "SCRIPTS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.SCRIPTS) ELSE <<>>)
Scripts == TLCGet(12)
ASSUME Keep(16, LET s == JsonDeserialize(IOEnv.NS) IN {s[i] : i \in 1..Len(s)})
Ns == TLCGet(16)
Depth == atoi(IOEnv.DEPTH)
Files == {<<>>, <<<<>>>>, <<Codes("f")>>, <<<<97, 32, 46, 99, 113, 195, 169>>>>}
Positions == Ns \X Ns
VARIABLES loc, path, ph
vars == <<loc, path, ph>>
\* ph: the number of the script followed, 0 none, -1 finished
FollowInit == \E k \in 1..Len(Scripts) : LET c == Scripts[k] IN
  loc = MkLoc(c.file, c.f, c.l) /\ path = <<[file |-> c.file, a |-> c.f, b |-> c.l, loc |-> loc]>> /\ ph = k
Follow == /\ ph \in 1..Len(Scripts) /\ Len(path) <= Len(Scripts[ph].adds)
          /\ LET p == Scripts[ph].adds[Len(path)] IN loc' = Expand(loc, p) /\ path' = Append(path, [file |-> loc.file, a |-> p, b |-> p, loc |-> loc'])
          /\ UNCHANGED ph
FreeInit == \E file \in Files, f \in Positions, l \in Positions :
  /\ (file \in {<<<<>>>>, <<<<97, 32, 46, 99, 113, 195, 169>>>>} => f = l)
  /\ loc = MkLoc(file, f, l) /\ path = <<[file |-> file, a |-> f, b |-> l, loc |-> loc]>> /\ ph = 0
Grow == /\ ph = 0 /\ Len(path) <= Depth
        /\ \E p \in Positions : loc' = Expand(loc, p) /\ path' = Append(path, [file |-> loc.file, a |-> p, b |-> p, loc |-> loc'])
        /\ UNCHANGED ph
N2(p) == <<Nums[p[1]], Nums[p[2]]>>
Tell == /\ ph # -1 /\ Len(path) = 1 + (IF Scripts = <<>> THEN Depth ELSE Len(Scripts[ph].adds))
        /\ PrintT(ToJson([file |-> path[1].file, a |-> N2(path[1].a), b |-> N2(path[1].b),
                          adds |-> [i \in 1..Len(path) - 1 |-> N2(path[i + 1].a)], states |-> [i \in 1..Len(path) |-> RepLoc(path[i].loc)]]))
        /\ ph' = -1 /\ UNCHANGED <<loc, path>>
MInit == IF Scripts = <<>> THEN FreeInit ELSE FollowInit
MNext == IF Scripts = <<>> THEN Grow \/ Tell ELSE Follow \/ Tell
MSpec == MInit /\ [][MNext]_vars
\* the range is ordered, covers what it was given, and no more than that
Ordered == ~Lt(loc.r.last, loc.r.first)
Covers == Encloses(loc, path[1].a) /\ \A i \in 2..Len(path) : Encloses(loc, path[i].a)
Given == {path[1].a} \cup {path[1].b} \cup {path[i].a : i \in 2..Len(path)}
Tight == loc.r.first \in Given /\ loc.r.last \in Given
NoEmptyName == loc.file # <<<<>>>>
\* an expansion keeps the file, never shrinks, and does nothing the second time
Monotone == [][ph' # -1 => /\ loc'.file = loc.file /\ ~Lt(loc.r.first, loc'.r.first) /\ ~Lt(loc'.r.last, loc.r.last)
                              /\ Expand(loc', path'[Len(path')].a) = loc']_vars
===================================================================================
