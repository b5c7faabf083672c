----------------------------------- MODULE Once -----------------------------------
(* Values that are computed once, before the search starts.  TLC sorts the fields of  *)
(* a record when it first needs to, in place; taking the fingerprint does that here,  *)
(* while there is one thread, and not later, in several workers at the same time.     *)
EXTENDS Naturals, TLC, TLCExt
Keep(k, v) == TLCSet(k, v) /\ (TLCFP(TLCGet(k)) = 0 \/ TRUE)
===================================================================================
