--------------------------- MODULE CoercionModel ---------------------------
(* Every small value against every small type of a schema: a state is a pair *)
(* (type, value); actions make the type or the value one step larger.  Each  *)
(* state is printed with the defects the specification finds, to be replayed *)
(* into the implementation, and checked against an independent reading of    *)
(* coercion: the coerced value exists exactly when there is no defect, and   *)
(* what comes out always conforms to the type.                               *)
EXTENDS Coercion, Json, IOUtils

CONSTANTS MaxT, MaxV     \* how many steps the type and the value may grow

S == ndJsonDeserialize(IOEnv.SCHEMA)[1]
Names == { n \in DOMAIN S.types : IsInputName(S, n) /\ n \in {"Int", "ID", "Float", "Digits", "Shape", "E0", "In", "One"} }

VARIABLES t, v, nt, nv

Leaf == {[k |-> "int", i |-> 1, id |-> 0], [k |-> "null", id |-> 0], [k |-> "str", s |-> "RED", id |-> 0],
         [k |-> "enum", s |-> "RED", id |-> 0], [k |-> "enum", s |-> "NOPE", id |-> 0], [k |-> "var", s |-> "x", id |-> 0]}
Keys3 == {"a", "b", "zz"}
ListOf(x) == [k |-> "list", l |-> x, id |-> 0]
ObjOf(x) == [k |-> "obj", o |-> x, id |-> 0]
Empty == {ListOf(<<>>), ObjOf(<<>>), [k |-> "float", s |-> "1.5e0", id |-> 0], [k |-> "bool", b |-> TRUE, id |-> 0]}

Init == /\ t \in { Named(n, FALSE) : n \in Names }
        /\ v \in Leaf \cup Empty
        /\ nt = 0 /\ nv = 0

Harden == nt < MaxT /\ ~t.r /\ t' = [t EXCEPT !.r = TRUE] /\ nt' = nt + 1 /\ UNCHANGED <<v, nv>>
Enlist == nt < MaxT /\ t' = [k |-> "L", of |-> t, r |-> FALSE] /\ nt' = nt + 1 /\ UNCHANGED <<v, nv>>
(* values grow from the inside out, then sideways *)
WrapList == nv < MaxV /\ v' = ListOf(<<v>>) /\ nv' = nv + 1 /\ UNCHANGED <<t, nt>>
WrapObj == nv < MaxV /\ \E key \in Keys3 : v' = ObjOf(<<[n |-> key, v |-> v]>>) /\ nv' = nv + 1 /\ UNCHANGED <<t, nt>>
Append1 == nv < MaxV /\ v.k = "list" /\ v.l # <<>> /\ Len(v.l) < 2
           /\ \E x \in Leaf : v' = ListOf(Append(v.l, x)) /\ nv' = nv + 1 /\ UNCHANGED <<t, nt>>
AddEntry == nv < MaxV /\ v.k = "obj" /\ v.o # <<>> /\ Len(v.o) < 3
            /\ \E x \in Leaf, key \in Keys3 : v' = ObjOf(Append(v.o, [n |-> key, v |-> x])) /\ nv' = nv + 1 /\ UNCHANGED <<t, nt>>
Next == Harden \/ Enlist \/ WrapList \/ WrapObj \/ Append1 \/ AddEntry
Spec == Init /\ [][Next]_<<t, v, nt, nv>>

-----------------------------------------------------------------------------
(* Coercion as a partial function.  Bad is the absence of a result. *)
Bad == [k |-> "bad"]
RECURSIVE Coerce(_, _, _)
Coerce(ty, x, implicit) ==
  IF x.k = "var" THEN [k |-> "var", s |-> x.s, id |-> 0]
  ELSE IF x.k = "null" THEN IF ty.r THEN Bad ELSE x
  ELSE IF ty.k = "L" THEN
    IF x.k = "list"
    THEN LET xs == [i \in 1..Len(x.l) |-> Coerce(ty.of, x.l[i], FALSE)] IN
         IF \E i \in 1..Len(x.l) : xs[i].k = "bad" THEN Bad ELSE ListOf(xs)
    ELSE IF ~implicit THEN Bad
    ELSE LET y == Coerce(ty.of, x, TRUE) IN IF y.k = "bad" THEN Bad ELSE ListOf(<<y>>)
  ELSE LET td == S.types[ty.n] IN
    CASE td.k = "builtin" -> IF ~ScalarAccepts(ty.n, x) THEN Bad ELSE x
      [] td.k = "scalar" -> IF TakesValue(td, x) THEN x ELSE Bad
      [] td.k = "enum" -> IF x.k = "enum" /\ x.s \in RangeOf(td.values) THEN x ELSE Bad
      [] td.k = "input" ->
           IF x.k # "obj" THEN Bad
           ELSE IF \E i, j \in 1..Len(x.o) : i # j /\ x.o[i].n = x.o[j].n THEN Bad
           ELSE IF \E i \in 1..Len(x.o) : ~Has(td.inputs, x.o[i].n) THEN Bad
           ELSE IF td.oneof /\ (Len(x.o) # 1 \/ x.o[1].v.k = "null") THEN Bad
           ELSE LET given == Keys(x)
                    fields == { f \in DOMAIN td.inputs : f \in given \/ td.inputs[f].def # <<>> }
                    val(f) == IF f \in given THEN Coerce(td.inputs[f].type, FirstEntry(x, f), TRUE) ELSE td.inputs[f].def[1]
                IN IF \E f \in DOMAIN td.inputs : f \notin fields /\ td.inputs[f].type.r THEN Bad
                   ELSE IF \E f \in fields : val(f).k = "bad" THEN Bad
                   ELSE [k |-> "rec", f |-> [f \in fields |-> val(f)]]

RECURSIVE Conforms(_, _)
Conforms(ty, x) ==
  IF x.k = "var" THEN TRUE
  ELSE IF x.k = "null" THEN ~ty.r
  ELSE IF ty.k = "L" THEN x.k = "list" /\ \A i \in 1..Len(x.l) : Conforms(ty.of, x.l[i])
  ELSE LET td == S.types[ty.n] IN
    CASE td.k = "builtin" -> ScalarAccepts(ty.n, x)
      [] td.k = "scalar" -> TakesValue(td, x)
      [] td.k = "enum" -> x.k = "enum" /\ x.s \in RangeOf(td.values)
      [] td.k = "input" -> /\ x.k = "rec"
                           /\ \A f \in DOMAIN td.inputs : td.inputs[f].type.r => f \in DOMAIN x.f
                           /\ \A f \in DOMAIN x.f : f \in DOMAIN td.inputs /\ (td.inputs[f].def # <<>> \/ Conforms(td.inputs[f].type, x.f[f]))

D == LiteralDefects(S, t, v)
(* no defect exactly when coercion has a result, and the result has the type *)
DefectsComplete == (D = {}) <=> (Coerce(t, v, TRUE).k # "bad")
ResultConforms == LET y == Coerce(t, v, TRUE) IN y.k # "bad" => Conforms(t, y)
(* requiring non-null only refuses null *)
NonNullMonotone == v.k # "null" => ((D = {}) <=> (LiteralDefects(S, [t EXCEPT !.r = TRUE], v) = {}))
Emit == PrintT(ToJson([t |-> t, v |-> v, want |-> { [k |-> f.k, x |-> f.x, path |-> f.path] : f \in D }]))
=============================================================================
