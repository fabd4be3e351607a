-------------------------- MODULE TypegenRulesTrace --------------------------
(* Trace validation: each line has a schema and the documents the type       *)
(* generator expanded or refused, with the kinds of its errors.              *)
EXTENDS TypegenRules, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

CountIn(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : CountIn(a, x) = CountIn(b, x)
(* how many errors GraphQL's own rules have is not this property's business *)
(* an error of the generator in words the driver does not know is a refusal of some kind *)
Same(want, got) == IF "Other" \in RangeOf(got) THEN want \notin {<<>>, <<"Invalid">>}
                   ELSE IF want = <<"Invalid">> THEN got # <<>> /\ RangeOf(got) = {"Invalid"} ELSE SameBag(want, got)

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E want \in { TLCEval([i \in 1..Len(t.docs) |-> CHOOSE f \in { TLCEval(Facts(t.schema, t.docs[i].doc, V)) : V \in { TLCEval(Visits(t.schema, t.docs[i].doc)) } } : TRUE]) } :
     LET bad == { i \in 1..Len(t.docs) : ~Same(want[i], t.docs[i].got) } IN
     /\ rejected' = rejected + Cardinality(bad)
     /\ PrintT(ToJson([line |-> t.line, want |-> want, bad |-> bad]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
==============================================================================
