----------------------------------- MODULE Robust -----------------------------------
(* The pipeline as a total function: whatever bytes it is given, it is never stuck,    *)
(* comes to an end, and ends with exactly one of a parse error, semantic errors, or a  *)
(* result.                                                                             *)
EXTENDS Programs
RSpec == PSpec /\ WF_<<vars, fam, slot>>(PNext)
Stuck == pc # "told" /\ ~ENABLED PNext
NeverStuck == ~Stuck
Outcomes == {"encoding", "syntax", "range", "rejected", "accepted", "undecided"}
Over == pc \in {"done", "told"}
OneOutcome == Over =>
  /\ result.outcome \in Outcomes
  /\ (result.outcome \in {"rejected", "accepted", "undecided", "range"} <=> tree # <<>>) \/ result.outcome = "range"
  /\ (result.outcome = "rejected" => errs # <<>>) /\ (result.outcome = "accepted" => errs = <<>>)
  /\ (result.outcome \in {"encoding", "syntax", "range"} => errs = <<>>)
  /\ (result.outcome \in {"syntax", "range"} => result.locs # {})
Ends == <>(pc = "told")
===================================================================================
