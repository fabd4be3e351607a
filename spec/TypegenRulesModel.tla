-------------------------- MODULE TypegenRulesModel --------------------------
(* Every document of at most N selections over a vocabulary (DocModel), with *)
(* what the generator must say of it. What it accepts can be decoded.        *)
EXTENDS DocModel, TypegenRules

Verdict == Facts(S, doc, TLCEval(Visits(S, doc)))
Judged == Complete => \E f \in { TLCEval(Verdict) } : PrintT(ToJson([doc |-> doc, facts |-> f]))
(* only documents whose names mean something *)
Sensible == \E V \in { TLCEval(Visits(S, doc)) } : { f.k : f \in Fields(S, V) } \subseteq {"NoSelection"}
AcceptedDecodes == Complete => \E V \in { TLCEval(Visits(S, doc)) } : Facts(S, doc, V) = <<>> => Decodable(S, doc, V) /\ Shaped(S, doc, V)
==============================================================================
