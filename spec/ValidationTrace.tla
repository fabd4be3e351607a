-------------------------- MODULE ValidationTrace --------------------------
(* Trace validation: each line of the trace is one schema with the documents *)
(* validated against it by the implementation and the facts it reported.     *)
(* A step consumes a line; a document whose reported facts are not the facts *)
(* of the specification is rejected (printed).                               *)
EXTENDS Validation, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Rules == { s \in {"operations", "subscriptions", "fields", "arguments", "fragments", "values",
                  "directives", "variables", "usages", "merge"} : s = IOEnv.RULE }

VARIABLES l, rejected

Facts(S, d, V, rule) ==
  CASE rule = "operations" -> Operations(S, d)
    [] rule = "subscriptions" -> Subscriptions(S, d)
    [] rule = "fields" -> Fields(S, V)
    [] rule = "arguments" -> Arguments(S, V)
    [] rule = "fragments" -> Fragments(S, d, V)
    [] rule = "values" -> Values(S, V)
    [] rule = "directives" -> Directives(S, V)
    [] rule = "variables" -> Variables(S, d, V)
    [] rule = "usages" -> Usages(S, d, V)
    [] rule = "merge" -> { Fact("MergeKey", 0, x) : x \in MergeConflicts(S, d, V) }

DuplicateFragments(d) == Cardinality(FragNames(d)) # Len(d.frags)
DuplicateVars(d) == \E i \in 1..Len(d.ops) :
   Cardinality({ d.ops[i].vars[j].name : j \in 1..Len(d.ops[i].vars) }) # Len(d.ops[i].vars)

(* what the rule says where names are ambiguous or expansion is not defined is not compared *)
Comparable(d, rule) ==
  CASE rule \in {"operations", "fields", "arguments", "values", "directives"} -> TRUE
    [] rule = "fragments" -> ~DuplicateFragments(d)
    [] rule = "subscriptions" ->
         /\ ~DuplicateFragments(d) /\ CyclicFragments(d) = {}
         /\ \A s \in UNION { SpreadsIn(d.ops[i].sel) : i \in 1..Len(d.ops) }
               \cup UNION { SpreadsIn(d.frags[i].sel) : i \in 1..Len(d.frags) } : s.n \in FragNames(d)
    [] rule = "variables" -> ~DuplicateFragments(d)
    [] rule = "usages" -> ~DuplicateFragments(d) /\ ~DuplicateVars(d)
    [] rule = "merge" -> ~DuplicateFragments(d) /\ CyclicFragments(d) = {}

(* cycles: one report per cyclic fragment, at a spread on a cycle that leads back to it *)
CycleOk(d, got) ==
  LET c == { f \in got : f.k = "FragmentCycle" } IN
  /\ { f.x : f \in c } = CyclicFragments(d)
  /\ { f.id : f \in c } \subseteq CyclicSpreads(d)

Accepts(S, d, V, rule, got) ==
  CASE rule = "merge" ->
         LET want == MergeConflicts(S, d, V)
             keys == { f.x : f \in { g \in got : g.k = "MergeKey" } }
         IN (want = {}) = (got = {}) /\ keys \subseteq want
    [] rule = "fragments" ->
         /\ CycleOk(d, got)
         /\ { f \in got : f.k # "FragmentCycle" } = Facts(S, d, V, rule)
    [] OTHER -> got = Facts(S, d, V, rule)

Judge(S, c, rule) ==
  LET got == RangeOf(c.got) IN
  IF ~Comparable(c.doc, rule) THEN "skipped"
  ELSE IF \E V \in { TLCEval(Visits(S, c.doc)) } : Accepts(S, c.doc, V, rule, got)
       THEN (IF got = {} THEN "clean" ELSE "facts")
       ELSE "rejected"

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E verdicts \in { TLCEval([i \in 1..Len(t.docs) |-> Judge(t.schema, t.docs[i], IOEnv.RULE)]) } :
     LET bad == { i \in 1..Len(t.docs) : verdicts[i] = "rejected" }
         n(x) == Cardinality({ i \in 1..Len(t.docs) : verdicts[i] = x })
     IN /\ rejected' = rejected + Cardinality(bad)
        /\ PrintT(ToJson([line |-> t.line, clean |-> n("clean"), facts |-> n("facts"), skipped |-> n("skipped"),
              bad |-> { [doc |-> i, want |-> Facts(t.schema, t.docs[i].doc, TLCEval(Visits(t.schema, t.docs[i].doc)), IOEnv.RULE)] : i \in bad }]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
