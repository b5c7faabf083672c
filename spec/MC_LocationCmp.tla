------------------------------ MODULE MC_LocationCmp ------------------------------
(* Relations between two locations.                                                    *)
EXTENDS Location, Once
ASSUME Keep(17, LET s == JsonDeserialize(IOEnv.NS) IN {s[i] : i \in 1..Len(s)})
Ns == TLCGet(17)
Files == {<<>>, <<<<>>>>, <<Codes("f")>>, <<Codes("g")>>}
Positions == Ns \X Ns
VARIABLES x, y, ph
vars == <<x, y, ph>>
MkP == {<<f, l>> \in Positions \X Positions : TRUE}
CInit == /\ \E p \in MkP, file \in Files : (file = <<>> \/ p[1] = p[2]) /\ x = [file |-> file, f |-> p[1], l |-> p[2]]
         /\ y = <<>> /\ ph = "one"
LocOf(z) == MkLoc(z.file, z.f, z.l)
Choose2 == ph = "one" /\ ph' = "two" /\ UNCHANGED x
           /\ \E p \in MkP, file \in Files : (file = <<>> \/ p[1] = p[2]) /\ y' = [file |-> file, f |-> p[1], l |-> p[2]]
N2(p) == <<Nums[p[1]], Nums[p[2]]>>
Side(z) == [file |-> z.file, f |-> N2(z.f), l |-> N2(z.l)]
Tell == /\ ph = "two" /\ ph' = "done" /\ UNCHANGED <<x, y>>
        /\ LET a == LocOf(x) b == LocOf(y) IN
           PrintT(ToJson([x |-> Side(x), y |-> Side(y), eq |-> a = b, req |-> a.r = b.r, cmp |-> CmpRange(a.r, b.r), icmp |-> CmpPos(a.r.first, b.r.first)]))
CNext == Choose2 \/ Tell
CSpec == CInit /\ [][CNext]_vars
\* comparison is antisymmetric, and equality of ranges is what the order cannot tell apart
Antisymmetric == ph # "one" => CmpRange(LocOf(x).r, LocOf(y).r) = -CmpRange(LocOf(y).r, LocOf(x).r)
Consistent == ph # "one" => (CmpRange(LocOf(x).r, LocOf(y).r) = 0) = (LocOf(x).r = LocOf(y).r)
===================================================================================
