------------------------------ MODULE Schema -------------------------------
(* Type system documents: which of them build a schema, which schema that is, *)
(* and what may be wrong with it.                                             *)
(* A document D is [schemas, types, directives], each a sequence in the order *)
(* of the text. A type is [k, name, at, desc, dirs, ifaces, fields, members,   *)
(* values]: ifaces and members are sequences of [n, at]; a field is            *)
(* [name, desc, type, args, dirs]; an argument or input field is               *)
(* [name, desc, type, def, dirs]; a value is [name, desc, dirs]; a directive   *)
(* definition is [name, at, desc, rep, args, locs]; an applied directive is    *)
(* [n, at, args]; a schema block is [at, body, desc, dirs, roots] with roots   *)
(* a sequence of [op, n, at]. "at" is the position of the token to blame.      *)
EXTENDS Gql

BuiltinScalars == {"Int", "Float", "String", "Boolean", "ID"}
IntrospectionObjects == {"__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive"}
IntrospectionEnums == {"__TypeKind", "__DirectiveLocation"}
BuiltinDirectives == {"skip", "include", "deprecated", "specifiedBy", "oneOf"}

Names(defs) == { defs[i].name : i \in 1..Len(defs) }
First(defs, n) == CHOOSE i \in 1..Len(defs) : defs[i].name = n /\ \A j \in 1..(i - 1) : defs[j].name # n
Def(defs, n) == defs[First(defs, n)]

(* the kind a name stands for: introspection types cannot be taken over, scalars can *)
KindIn(D, n) ==
  IF n \in IntrospectionObjects THEN "object"
  ELSE IF n \in IntrospectionEnums THEN "enum"
  ELSE IF n \in Names(D.types) THEN Def(D.types, n).k
  ELSE IF n \in BuiltinScalars THEN "builtin" ELSE "none"

BaseRef(t) == LET RECURSIVE F(_) F(x) == IF x.k = "L" THEN F(x.of) ELSE x IN F(t)

(* definitions that count: the first of each name, unless the name is taken *)
Live(D) == { i \in 1..Len(D.types) : D.types[i].name \notin IntrospectionObjects \cup IntrospectionEnums
                                       /\ First(D.types, D.types[i].name) = i }
LiveDirectives(D) == { i \in 1..Len(D.directives) : First(D.directives, D.directives[i].name) = i }

Err(k, locs) == [k |-> k, locs |-> locs]

RECURSIVE SetToSeq1(_)
SetToSeq1(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetToSeq1(X \ {x})
ForAllOf(X, f(_)) == LET q == SetToSeq1(X) IN Flat([i \in 1..Len(q) |-> f(q[i])])
Map(s, f(_)) == Flat([i \in 1..Len(s) |-> f(s[i])])

DuplicateErrors(k, defs, reserved) ==
  LET atsOf(n) == { defs[i].at : i \in { j \in 1..Len(defs) : defs[j].name = n } }
      err(n) == IF Cardinality(atsOf(n)) > 1 \/ n \in reserved THEN << Err(k, atsOf(n)) >> ELSE <<>>
  IN ForAllOf(Names(defs), err)

RefErrors(D, ref, allowed, wrong) ==
  LET k == KindIn(D, ref.n) IN
  IF k = "none" THEN << Err("ReferencedTypeDoesNotExist", {ref.at}) >>
  ELSE IF k \in allowed THEN <<>> ELSE << Err(wrong, {ref.at}) >>

DirErrors(D, dirs) ==
  LET one(d) == IF d.n \in BuiltinDirectives \cup Names(D.directives) THEN <<>>
                ELSE << Err("ReferencedDirectiveDoesNotExist", {d.at}) >>
  IN Map(dirs, one)

InputErrors(D, values) ==
  LET one(v) == RefErrors(D, BaseRef(v.type), InputKinds, "ReferencedTypeIsNotAnInputType") \o DirErrors(D, v.dirs)
  IN Map(values, one)

FieldErrors(D, fields) ==
  LET one(f) == RefErrors(D, BaseRef(f.type), OutputKinds, "ReferencedTypeIsNotAnOutputType")
                \o InputErrors(D, f.args) \o DirErrors(D, f.dirs)
  IN Map(fields, one)

TypeErrors(D, t) ==
  LET iface(r) == RefErrors(D, r, {"interface"}, "ReferencedTypeIsNotAnInterface")
      member(r) == RefErrors(D, r, {"object"}, "ReferencedUnionMemberTypeIsNotAnObject")
      value(v) == DirErrors(D, v.dirs)
  IN DirErrors(D, t.dirs) \o Map(t.ifaces, iface) \o Map(t.members, member) \o Map(t.values, value)
     \o (IF t.k = "input" THEN InputErrors(D, t.fields) ELSE FieldErrors(D, t.fields))

ReferenceErrors(D) ==
  LET type(i) == TypeErrors(D, D.types[i])
      dir(i) == InputErrors(D, D.directives[i].args)
      block(s) == DirErrors(D, s.dirs)
  IN DuplicateErrors("DuplicateTypeDefinitions", D.types, IntrospectionObjects \cup IntrospectionEnums)
     \o DuplicateErrors("DuplicateDirectiveDefinitions", D.directives, {})
     \o ForAllOf(Live(D), type) \o ForAllOf(LiveDirectives(D), dir) \o Map(D.schemas, block)

RootsFor(s, op) == SelectSeq(s.roots, LAMBDA r : r.op = op)
Ops == {"query", "mutation", "subscription"}
Implicit(op) == CASE op = "query" -> "Query" [] op = "mutation" -> "Mutation" [] OTHER -> "Subscription"

RootErrors(D) ==
  IF Len(D.schemas) > 1 THEN << Err("DuplicateExplicitSchemaDefinitions", { D.schemas[i].at : i \in 1..Len(D.schemas) }) >>
  ELSE IF Len(D.schemas) = 1 THEN
    LET s == D.schemas[1]
        one(op) == LET rs == RootsFor(s, op) IN
          IF Len(rs) = 0 THEN <<>>
          ELSE IF Len(rs) > 1 THEN << Err("DuplicateExplicitRootOperationDefinitions", { rs[i].at : i \in 1..Len(rs) }) >>
          ELSE IF KindIn(D, rs[1].n) = "none" THEN << Err("ExplicitRootOperationTypeDoesNotExist", {rs[1].at}) >>
          ELSE IF KindIn(D, rs[1].n) # "object" THEN << Err("ExplicitRootOperationTypeNotAnObject", {rs[1].at}) >> ELSE <<>>
        errs == ForAllOf(Ops, one)
    IN IF errs # <<>> THEN errs
       ELSE IF RootsFor(s, "query") = <<>> THEN << Err("ExplicitSchemaDefinitionMissingQuery", {s.body}) >> ELSE <<>>
  ELSE
    LET one(op) == LET n == Implicit(op) IN
          IF KindIn(D, n) \in {"none", "object"} THEN <<>> ELSE << Err("ImplicitRootOperationTypeNotAnObject", {Def(D.types, n).at}) >>
        errs == ForAllOf(Ops, one)
    IN IF errs # <<>> THEN errs
       ELSE IF KindIn(D, "Query") = "object" THEN <<>>
       ELSE IF \E op \in Ops : KindIn(D, Implicit(op)) = "object" THEN << Err("ImplicitSchemaDefinitionMissingQuery", {}) >>
       ELSE << Err("NoSchemaDefinition", {}) >>

BuildErrors(D) == LET r == ReferenceErrors(D) IN IF r # <<>> THEN r ELSE RootErrors(D)

Count(D) == Len(D.schemas) + Len(D.types) + Len(D.directives)

RootName(D, op) ==
  IF Len(D.schemas) = 1 THEN LET rs == RootsFor(D.schemas[1], op) IN IF rs = <<>> THEN "" ELSE rs[1].n
  ELSE IF KindIn(D, Implicit(op)) = "object" THEN Implicit(op) ELSE ""

-----------------------------------------------------------------------------
(* The schema a document stands for, in the vocabulary of the public API *)
Word(k) == CASE k = "builtin" -> "BUILTIN" [] k = "scalar" -> "SCALAR" [] k = "enum" -> "ENUM" [] k = "object" -> "OBJECT"
             [] k = "interface" -> "INTERFACE" [] k = "union" -> "UNION" [] OTHER -> "INPUT_OBJECT"
RECURSIVE Bare(_)
Bare(t) == IF t.k = "L" THEN [k |-> "L", of |-> Bare(t.of), r |-> t.r] ELSE [k |-> "N", n |-> t.n, r |-> t.r]
Res(D, t) == LET n == BaseRef(t).n IN Word(KindIn(D, n)) \o " " \o n
(* the sequence is bound first: TLC would work it out again for each element *)
Only(X) == CHOOSE x \in X : TRUE
SeqOf(s, f(_)) == Only({ TLCEval([i \in 1..Len(z) |-> f(z[i])]) : z \in {s} })
BareDir(d) == [n |-> d.n, args |-> d.args]
BareDirs(ds) == SeqOf(ds, BareDir)
Name1(r) == r.n

DInput(D, v) == [name |-> v.name, desc |-> v.desc, type |-> Bare(v.type), res |-> Res(D, v.type), def |-> v.def, dirs |-> BareDirs(v.dirs)]
DInputs(D, vs) == LET f(v) == DInput(D, v) IN SeqOf(vs, f)
DField(D, f) == [name |-> f.name, desc |-> f.desc, type |-> Bare(f.type), res |-> Res(D, f.type), args |-> DInputs(D, f.args), dirs |-> BareDirs(f.dirs)]
DFields(D, fs) == LET g(f) == DField(D, f) IN SeqOf(fs, g)
DValue(v) == [name |-> v.name, desc |-> v.desc, dirs |-> BareDirs(v.dirs)]

DType(D, t) ==
  LET head == [k |-> t.k, name |-> t.name, desc |-> t.desc, dirs |-> BareDirs(t.dirs)] IN
  CASE t.k \in {"object", "interface"} -> head @@ [ifaces |-> SeqOf(t.ifaces, Name1), fields |-> DFields(D, t.fields)]
    [] t.k = "union" -> head @@ [members |-> SeqOf(t.members, Name1)]
    [] t.k = "enum" -> head @@ [values |-> SeqOf(t.values, DValue)]
    [] t.k = "input" -> head @@ [fields |-> DInputs(D, t.fields)]
    [] OTHER -> head
DDirective(D, d) == [k |-> "directive", name |-> d.name, desc |-> d.desc, rep |-> d.rep, args |-> DInputs(D, d.args), locs |-> d.locs]

Heading(D) == IF Len(D.schemas) = 1 THEN [desc |-> D.schemas[1].desc, dirs |-> BareDirs(D.schemas[1].dirs)] ELSE [desc |-> <<>>, dirs |-> <<>>]

(* does a reported dump show exactly the definitions of D whose names are in T and P? *)
ShowsTypes(D, T, got) ==
  /\ Len(got) = Cardinality(T)
  /\ \A i \in 1..Len(got) : got[i].name \in T /\ \E t \in {Def(D.types, got[i].name)} : got[i] = DType(D, t)
ShowsDirectives(D, P, got) ==
  /\ Len(got) = Cardinality(P)
  /\ \A i \in 1..Len(got) : got[i].name \in P /\ \E d \in {Def(D.directives, got[i].name)} : got[i] = DDirective(D, d)
Shows(D, T, P, got) ==
  /\ got.desc = Heading(D).desc /\ got.dirs = Heading(D).dirs
  /\ got.query = RootName(D, "query") /\ got.mutation = RootName(D, "mutation") /\ got.subscription = RootName(D, "subscription")
  /\ ShowsTypes(D, T, got.types)
  /\ ShowsDirectives(D, P, got.directives)

-----------------------------------------------------------------------------
(* Rules about a schema that builds *)
Repeats(names) == { n \in RangeOf(names) : Cardinality({ i \in 1..Len(names) : names[i] = n }) > 1 }
Fact3(k, x, n) == [k |-> k, x |-> x, n |-> n]
NameOf(x) == x.name

(* required references of an input object that its values must contain *)
Needs(D, n) ==
  IF KindIn(D, n) # "input" THEN {}
  ELSE LET fs == Def(D.types, n).fields
       IN { fs[i].type.n : i \in { j \in 1..Len(fs) : fs[j].type.k = "N" /\ fs[j].type.r /\ KindIn(D, fs[j].type.n) = "input" } }

RECURSIVE Closure(_, _, _)
Closure(D, X, todo) ==
  IF todo = {} THEN X
  ELSE UNION { Closure(D, X \cup new, new) : new \in { TLCEval((UNION { Needs(D, n) : n \in todo }) \ X) } }
NeededBy(D, n) == UNION { Closure(D, s, s) : s \in { TLCEval(Needs(D, n)) } }

Rules(D) ==
  LET dup(k, t, names) == LET one(n) == << Fact3(k, n, Cardinality({ i \in 1..Len(names) : names[i] = n })) >> IN ForAllOf(Repeats(names), one)
      one(i) == LET t == D.types[i] IN
        CASE t.k = "enum" -> dup("DuplicateEnumValue", t, SeqOf(t.values, NameOf))
          [] t.k = "input" ->
               dup("DuplicateInput", t, SeqOf(t.fields, NameOf))
               \o (IF t.name \in NeededBy(D, t.name) THEN << Fact3("Circular", t.name, 0) >> ELSE <<>>)
          [] OTHER -> <<>>
  IN ForAllOf(Live(D), one)
=============================================================================
