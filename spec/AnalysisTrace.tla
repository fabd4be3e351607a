--------------------------- MODULE AnalysisTrace ---------------------------
(* Trace validation of analyses: each line is a schema with requests (a      *)
(* document, an operation name, variable values, a list limit) and what the  *)
(* implementation's analyses returned.                                       *)
EXTENDS Analysis, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : Count(a, x) = Count(b, x)

NamesUnique(d) == Cardinality(FragNames(d)) = Len(d.frags)
VarsUnique(d) == \A i \in 1..Len(d.ops) :
   Cardinality({ d.ops[i].vars[j].name : j \in 1..Len(d.ops[i].vars) }) = Len(d.ops[i].vars)

Comparable(S, d, rule) ==
  /\ NamesUnique(d) /\ VarsUnique(d) /\ CyclicFragments(d) = {}
  /\ rule = "cost" => MergeConflicts(S, d, TLCEval(Visits(S, d))) = {}

(* got: [ok, e] and, when ok, what the rule is about *)
Value(S, c, o, rule) ==
  CASE rule = "select" -> 0
    [] rule = "depth" -> Depth(OpEvents(S, c.doc, o, c.given))
    [] rule = "cost" -> [unit |-> Cost(S, c.doc, o, c.given, "unit", "scope"), relay |-> Cost(S, c.doc, o, c.given, "relay", "scope"),
                         unitmin |-> Cost(S, c.doc, o, c.given, "unit", "exec"), relaymin |-> Cost(S, c.doc, o, c.given, "relay", "exec")]
    [] rule = "size" -> Sizes(TLCEval(OpEvents(S, c.doc, o, c.given)), o, c.given, c.max)
    [] rule = "deprecated" -> Deprecated(S, TLCEval(OpEvents(S, c.doc, o, c.given)), o, c.given)

Agrees(rule, want, got) ==
  CASE rule = "select" -> TRUE
    [] rule = "depth" -> got = want
    [] rule = "cost" -> /\ got.unit = want.unit /\ got.relay = want.relay
                        /\ got.unit >= want.unitmin /\ got.relay >= want.relaymin
    [] rule \in {"size", "deprecated"} -> SameBag(want, got)

Trivial(rule, v) == CASE rule \in {"select", "cost"} -> FALSE [] rule = "depth" -> v <= 1 [] OTHER -> v = <<>>

Judge(S, c, rule) ==
  LET sel == Select(c.doc, c.name) IN
  IF ~Comparable(S, c.doc, rule) THEN "skipped"
  ELSE IF ~sel.ok THEN IF ~c.got.ok /\ c.got.e = sel.e THEN "facts" ELSE "rejected"
  ELSE IF ~c.got.ok THEN "rejected"
  ELSE IF \E v \in { TLCEval(Value(S, c, sel.op, rule)) } : Agrees(rule, v, c.got.v)
       THEN (IF Trivial(rule, c.got.v) THEN "clean" ELSE "facts") ELSE "rejected"

Wanted(S, c, rule) ==
  LET sel == Select(c.doc, c.name) IN
  IF sel.ok THEN ToString(Value(S, c, sel.op, rule)) ELSE sel.e

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E verdicts \in { TLCEval([i \in 1..Len(t.cases) |-> Judge(t.schema, t.cases[i], IOEnv.RULE)]) } :
     LET bad == { i \in 1..Len(t.cases) : verdicts[i] = "rejected" }
         n(x) == Cardinality({ i \in 1..Len(t.cases) : verdicts[i] = x })
     IN /\ rejected' = rejected + Cardinality(bad)
        /\ PrintT(ToJson([line |-> t.line, clean |-> n("clean"), facts |-> n("facts"), skipped |-> n("skipped"),
              bad |-> { [case |-> i, want |-> Wanted(t.schema, t.cases[i], IOEnv.RULE)] : i \in bad }]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
