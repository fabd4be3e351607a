------------------------------ MODULE Coercion ------------------------------
(* GraphQL input coercion (section 3, "Input Coercion" of every input kind): *)
(* the set of defects of a value with respect to an expected type.           *)
(* A defect is [k, x, path, id]: kind, what it names, path and value node.   *)
(* mode "lit": literals (enums are names); mode "json": strings may name     *)
(* enum members.  A variable always fits (its type is checked elsewhere).    *)
EXTENDS Gql

Defect(k, x, path, id) == [k |-> k, x |-> x, path |-> path, id |-> id]

SubPath(path, s) == IF path = "" THEN s ELSE path \o "/" \o s

ScalarAccepts(n, v) ==
  CASE n = "Boolean" -> v.k = "bool"
    [] n = "Int"     -> v.k = "int"
    [] n = "Float"   -> v.k \in {"int", "float"}
    [] n = "ID"      -> v.k \in {"int", "str"}
    [] n = "String"  -> v.k = "str"

(* what a custom scalar takes is up to the context; here: values of some kinds (of any kind when none are named) *)
TakesValue(td, v) == td.values = <<>> \/ v.k \in RangeOf(td.values)

Keys(v) == { v.o[i].n : i \in 1..Len(v.o) }
FirstEntry(v, key) == v.o[CHOOSE i \in 1..Len(v.o) : v.o[i].n = key /\ \A j \in 1..(i - 1) : v.o[j].n # key].v

RECURSIVE Defects(_, _, _, _, _, _)
(* implicit: a single value may stand for a list of one (not inside a list literal) *)
Defects(S, t, v, path, implicit, mode) ==
  IF v.k = "var" THEN {}
  ELSE IF v.k = "null" THEN IF t.r THEN {Defect("Null", ShowType(t), path, v.id)} ELSE {}
  ELSE IF t.k = "L" THEN
    IF v.k = "list"
    THEN UNION { Defects(S, t.of, v.l[i], SubPath(path, ToString(i - 1)), FALSE, mode) : i \in 1..Len(v.l) }
    ELSE IF implicit THEN Defects(S, t.of, v, path, TRUE, mode)
    ELSE {Defect("NoConversion", ShowType(t), path, v.id)}
  ELSE LET td == S.types[t.n]
           mismatch == {Defect("NoConversion", ShowType(t), path, v.id)} IN
    CASE td.k = "builtin" -> IF ScalarAccepts(t.n, v) THEN {} ELSE mismatch
      [] td.k = "scalar"  -> IF TakesValue(td, v) THEN {} ELSE {Defect("CustomScalar", t.n \o " " \o v.k, path, v.id)}
      [] td.k = "enum"    ->
           IF v.k = "enum" \/ (v.k = "str" /\ mode = "json")
           THEN IF v.s \in RangeOf(td.values) THEN {}
                ELSE {Defect("NoEnumMember", t.n \o "." \o v.s, path, v.id)}
           ELSE mismatch
      [] td.k = "input" ->
           IF v.k # "obj" THEN mismatch ELSE
           LET fs == td.inputs
               ks == Keys(v)
               count(key) == Cardinality({ i \in 1..Len(v.o) : v.o[i].n = key })
               nulls == { i \in 1..Len(v.o) : v.o[i].v.k = "null" }
           IN { Defect("DuplicateField", key, path, v.id) : key \in { q \in ks : count(q) > 1 } }
              \cup { Defect("UnknownField", t.n \o "." \o v.o[i].n, SubPath(path, v.o[i].n), v.o[i].v.id) :
                       i \in { j \in 1..Len(v.o) : ~Has(fs, v.o[j].n) } }
              \cup { Defect("MissingFields", t.n \o "." \o f, path, v.id) :
                       f \in { g \in DOMAIN fs : g \notin ks /\ Required(fs[g].type, fs[g].def) } }
              \cup UNION { Defects(S, fs[f].type, FirstEntry(v, f), SubPath(path, f), TRUE, mode) :
                             f \in (DOMAIN fs) \cap ks }
              \cup (IF ~td.oneof THEN {} ELSE
                     { Defect("OneOfNull", t.n \o "." \o v.o[i].n, path, v.id) : i \in nulls }
                     \cup (IF Len(v.o) - Cardinality(nulls) # 1
                           THEN {Defect("OneOfNotSingle", t.n, path, v.id)} ELSE {}))

LiteralDefects(S, t, v) == Defects(S, t, v, "", TRUE, "lit")
=============================================================================
