--------------------------------- MODULE Overload ---------------------------------
(* Overload resolution in general.  A table is a sequence of [name, types, tag]; types    *)
(* and arguments are sequences of type letters; promotes(a, b) tells whether a value of   *)
(* type a can be used where b is wanted.  The last registered applicable one is chosen.   *)
EXTENDS Integers, Sequences
Fits(promotes, types, args) == Len(types) = Len(args) /\ \A i \in 1..Len(args) : args[i] = types[i] \/ <<args[i], types[i]>> \in promotes
Candidates(promotes, table, name, args) == {k \in 1..Len(table) : table[k].name = name /\ Fits(promotes, table[k].types, args)}
\* "noname", "nooverload", or the tag and the types of the promoted arguments
Resolution(promotes, table, name, args) ==
  LET c == Candidates(promotes, table, name, args) IN
  IF \A k \in 1..Len(table) : table[k].name # name THEN [r |-> "noname", tag |-> 0, types |-> <<>>]
  ELSE IF c = {} THEN [r |-> "nooverload", tag |-> 0, types |-> <<>>]
  ELSE LET k == CHOOSE k \in c : \A j \in c : j <= k IN [r |-> "ok", tag |-> table[k].tag, types |-> table[k].types]
===================================================================================
