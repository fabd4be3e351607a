--------------------------- MODULE CoercionTrace ---------------------------
(* Trace validation for input coercion (rule "coerce": one value against one *)
(* type) and for request variables (rule "vars": all variable values of a    *)
(* request against the definitions of the operation that runs).              *)
EXTENDS Coercion, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rejected

(* a request: what is wrong with each variable *)
VariableFacts(S, defs, given) ==
  { [k |-> "Unused", x |-> n, errs |-> {}] : n \in { m \in DOMAIN given : \A i \in 1..Len(defs) : defs[i].name # m } }
  \cup UNION { LET q == defs[i] IN
       IF ~IsInputName(S, BaseName(q.type)) THEN {}
       ELSE IF q.name \in DOMAIN given
            THEN LET e == Defects(S, q.type, given[q.name], "", TRUE, "json") IN
                 IF e = {} THEN {} ELSE {[k |-> "Invalid", x |-> q.name, errs |-> { [k |-> f.k, x |-> f.x, path |-> f.path] : f \in e }]}
            ELSE IF Required(q.type, q.def) THEN {[k |-> "Missing", x |-> q.name, errs |-> {}]} ELSE {}
     : i \in 1..Len(defs) }

Want(S, c) ==
  IF IOEnv.RULE = "vars" THEN VariableFacts(S, c.defs, c.given)
  ELSE { [k |-> f.k, x |-> f.x, path |-> f.path] : f \in Defects(S, c.type, c.v, c.path, TRUE, c.mode) }

Got(c) == IF IOEnv.RULE = "vars" THEN { [k |-> g.k, x |-> g.x, errs |-> RangeOf(g.errs)] : g \in RangeOf(c.got) }
          ELSE RangeOf(c.got)

Judge(S, c) == IF Got(c) # Want(S, c) THEN "rejected" ELSE IF c.got = <<>> THEN "clean" ELSE "facts"

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E verdicts \in { TLCEval([i \in 1..Len(t.cases) |-> Judge(t.schema, t.cases[i])]) } :
     LET bad == { i \in 1..Len(t.cases) : verdicts[i] = "rejected" }
         n(x) == Cardinality({ i \in 1..Len(t.cases) : verdicts[i] = x })
     IN /\ rejected' = rejected + Cardinality(bad)
        /\ PrintT(ToJson([line |-> t.line, clean |-> n("clean"), facts |-> n("facts"),
              bad |-> { [case |-> i, want |-> Want(t.schema, t.cases[i])] : i \in bad }]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
