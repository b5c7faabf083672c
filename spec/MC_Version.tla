-------------------------------- MODULE MC_Version --------------------------------
(* Version texts, and triples of versions for the laws of the order.                      *)
(* Env: CFG [numbers (numerals), depth, texts, pairs (of versions, as numerals)].         *)
EXTENDS Version, Json, IOUtils, Once
ASSUME Keep(28, JsonDeserialize(IOEnv.CFG))
Cfg == TLCGet(28)
Numbers == {FromDec(Codes(Cfg.numbers[i])) : i \in 1..Len(Cfg.numbers)}
Big2(v) == [i \in 1..Len(v) |-> FromDec(Codes(v[i]))]
VARIABLES s, x, y, z, ph
vars == <<s, x, y, z, ph>>
VInit == \/ ph = "text" /\ (\E i \in 1..Len(Cfg.texts) : s = Cfg.texts[i]) /\ x = <<>> /\ y = <<>> /\ z = <<>>
         \/ ph = "pair" /\ s = <<>> /\ z = <<>> /\ (\E i \in 1..Len(Cfg.pairs) : x = Big2(Cfg.pairs[i][1]) /\ y = Big2(Cfg.pairs[i][2]))
         \/ ph = "run" /\ s = <<>> /\ x = <<>> /\ y = <<>> /\ z = <<>>
GrowX == ph = "run" /\ Len(x) < Cfg.depth /\ \E n \in Numbers : x' = Append(x, n) /\ UNCHANGED <<s, y, z, ph>>
GrowY == ph = "run" /\ Len(y) < Cfg.depth /\ \E n \in Numbers : y' = Append(y, n) /\ UNCHANGED <<s, x, z, ph>>
GrowZ == ph = "run" /\ Len(z) < Cfg.zdepth /\ \E n \in Numbers : z' = Append(z, n) /\ UNCHANGED <<s, x, y, ph>>
Digits(v) == [i \in 1..Len(v) |-> Str(ToDec(v[i]))]
Tell == /\ ph \in {"run", "pair"} /\ z = <<>> /\ ph' = "done" /\ UNCHANGED <<s, x, y, z>>
        /\ PrintT(ToJson([k |-> "cmp", x |-> Digits(x), y |-> Digits(y), c |-> Compare(x, y), sx |-> Show(x), sy |-> Show(y)]))
TellText == /\ ph = "text" /\ ph' = "done" /\ UNCHANGED <<s, x, y, z>>
            /\ LET p == Parse(s) IN PrintT(ToJson([k |-> "text", s |-> s, ok |-> p.ok, items |-> Digits(p.items), str |-> Show(p.items)]))
VNext == GrowX \/ GrowY \/ GrowZ \/ Tell \/ TellText
VSpec == VInit /\ [][VNext]_vars
Antisymmetric == Compare(x, y) = -Compare(y, x)
Transitive == Compare(x, y) <= 0 /\ Compare(y, z) <= 0 => Compare(x, z) <= 0
ZerosAtTheEndDoNotMatter == Compare(x, Append(x, Zero)) = 0 /\ Compare(Append(x, Zero), y) = Compare(x, y)
Reads == x # <<>> => (IF Parse(Show(x)).ok THEN Parse(Show(x)).items = x ELSE TRUE)
===================================================================================
