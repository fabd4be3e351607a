-------------------------------- MODULE Gql --------------------------------
(* Vocabulary shared by all specifications: schemas, documents, values.      *)
(*                                                                            *)
(* A schema S is a record                                                     *)
(*   [query, mutation, subscription : STRING  ("" = absent),                  *)
(*    types : name -> type record, directives : name -> directive record].    *)
(* A type record is [k, fields, ifaces, members, values, inputs, oneof]; kind *)
(* k is one of builtin, scalar, object, interface, union, enum, input.        *)
(* fields : name -> [type, args], inputs and args : name -> [type, def]       *)
(* (def is <<>> or <<value>>); built-in types, introspection types and        *)
(* introspection fields are part of S.                                        *)
(* A type reference is [k:"N", n, r] (r = non-null) or [k:"L", of, r].        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Has(r, key) == key \in DOMAIN r

RangeOf(s) == { s[i] : i \in DOMAIN s }

RECURSIVE FlatN(_, _)
FlatN(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatN(ss, i + 1)
Flat(ss) == LET t == TLCEval(ss) IN FlatN(t, 1)

RECURSIVE JoinN(_, _, _)
JoinN(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinN(ss, sep, i + 1)

RECURSIVE BaseName(_)
BaseName(t) == IF t.k = "L" THEN BaseName(t.of) ELSE t.n

RECURSIVE ShowType(_)
ShowType(t) == (IF t.k = "L" THEN "[" \o ShowType(t.of) \o "]" ELSE t.n) \o (IF t.r THEN "!" ELSE "")

Named(n, r) == [k |-> "N", n |-> n, r |-> r]
Nullable(t) == IF t.k = "L" THEN [k |-> "L", of |-> t.of, r |-> FALSE] ELSE [k |-> "N", n |-> t.n, r |-> FALSE]

KindOf(S, n) == IF Has(S.types, n) THEN S.types[n].k ELSE "none"
InputKinds == {"builtin", "scalar", "enum", "input"}
OutputKinds == {"builtin", "scalar", "enum", "object", "interface", "union"}
CompositeKinds == {"object", "interface", "union"}
LeafKinds == {"builtin", "scalar", "enum"}

IsInputName(S, n) == KindOf(S, n) \in InputKinds
IsCompositeName(S, n) == KindOf(S, n) \in CompositeKinds
IsLeafName(S, n) == KindOf(S, n) \in LeafKinds

FieldsOf(S, n) == IF Has(S.types, n) THEN S.types[n].fields ELSE << >>
HasField(S, t, f) == Has(S.types, t) /\ Has(S.types[t].fields, f)
FieldDef(S, t, f) == S.types[t].fields[f]

ObjectsOf(S) == { n \in DOMAIN S.types : S.types[n].k = "object" }
Possible(S, n) ==
  CASE KindOf(S, n) = "object" -> {n}
    [] KindOf(S, n) = "interface" -> { o \in ObjectsOf(S) : n \in RangeOf(S.types[o].ifaces) }
    [] KindOf(S, n) = "union" -> RangeOf(S.types[n].members)
    [] OTHER -> {}

Required(t, def) == t.r /\ def = <<>>

ResponseName(f) == IF f.alias = "" THEN f.name ELSE f.alias

(* the variables named anywhere inside a value: records [n, id] *)
RECURSIVE VarsIn(_)
VarsIn(v) ==
  CASE v.k = "var"  -> << [n |-> v.s, id |-> v.id] >>
    [] v.k = "list" -> Flat([i \in 1..Len(v.l) |-> VarsIn(v.l[i])])
    [] v.k = "obj"  -> Flat([i \in 1..Len(v.o) |-> VarsIn(v.o[i].v)])
    [] OTHER -> <<>>

Fact(k, id, x) == [k |-> k, id |-> id, x |-> x]
=============================================================================
