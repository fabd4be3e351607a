------------------------------ MODULE Compare ------------------------------
(* The differences between two schemas, and how much each may hurt a client. *)
(* A full schema record F is [dirs, types, directives]; a type is            *)
(* [k, desc, dirs, ifaces, fields, members, values, inputs] with maps from   *)
(* names for fields ([desc, type, dirs, args]), values ([desc, dirs]) and    *)
(* inputs and args ([desc, type, def, dirs]); desc and def are <<>> or <<x>>; *)
(* a directive definition is [desc, rep, locs, args]; dirs are sequences of   *)
(* [n, args] with args sequences of [n, v].                                   *)
EXTENDS Gql

(* a change: kind, path, and what distinguishes it there; crit is its gravity *)
Ch(k, path, on, a, b, v, crit) == [k |-> k, path |-> path, on |-> on, a |-> a, b |-> b, v |-> v, crit |-> crit]
At(k, path, on, crit) == << Ch(k, path, on, "", "", <<>>, crit) >>
Text(k, path, a, b, crit) == << Ch(k, path, "", a, b, <<>>, crit) >>

Or(desc) == IF desc = <<>> THEN "" ELSE desc[1]

RECURSIVE SameValue(_, _)
SameValue(v, w) ==
  /\ v.k = w.k
  /\ CASE v.k = "list" -> Len(v.l) = Len(w.l) /\ \A i \in 1..Len(v.l) : SameValue(v.l[i], w.l[i])
       [] v.k = "obj" -> /\ { v.o[i].n : i \in 1..Len(v.o) } = { w.o[i].n : i \in 1..Len(w.o) }
                         /\ \A i \in 1..Len(v.o), j \in 1..Len(w.o) : v.o[i].n = w.o[j].n => SameValue(v.o[i].v, w.o[j].v)
       [] v.k = "int" -> v.i = w.i
       [] v.k = "bool" -> v.b = w.b
       [] v.k = "null" -> TRUE
       [] OTHER -> v.s = w.s
SameDef(a, b) == Len(a) = Len(b) /\ (a # <<>> => SameValue(a[1], b[1]))

(* visit the elements of a finite set in some order, as a sequence *)
RECURSIVE Seqd(_)
Seqd(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Seqd(X \ {x})
Each(X, f(_)) == LET q == Seqd(X) IN Flat([i \in 1..Len(q) |-> f(q[i])])
Added(m, n) == DOMAIN n \ DOMAIN m
Removed(m, n) == DOMAIN m \ DOMAIN n
Common(m, n) == DOMAIN m \cap DOMAIN n

-----------------------------------------------------------------------------
(* What an edit may do to requests that were fine before it *)
Required1(d) == d.type.r /\ d.def = <<>>

(* every answer of the new type is an answer of the old one *)
RECURSIVE Covariant(_, _)
Covariant(old, new) ==
  /\ old.k = new.k
  /\ old.r => new.r
  /\ IF old.k = "L" THEN Covariant(old.of, new.of) ELSE old.n = new.n
(* every input of the old type is an input of the new one *)
RECURSIVE Contravariant(_, _)
Contravariant(old, new) ==
  /\ old.k = new.k
  /\ new.r => old.r
  /\ IF old.k = "L" THEN Contravariant(old.of, new.of) ELSE old.n = new.n

InputCrit(old, new) == IF Contravariant(old, new) THEN "safe" ELSE "breaking"
AddedCrit(d) == IF Required1(d) THEN "breaking" ELSE "safe"
DefaultCrit(new) == IF Required1(new) THEN "breaking" ELSE "dangerous"

-----------------------------------------------------------------------------
(* Applied directives: the nth application of a directive corresponds to the nth application of the same *)
Nth(dirs, i) == Cardinality({ j \in 1..i : dirs[j].n = dirs[i].n })
Partner(dirs, name, n) ==
  LET X == { i \in 1..Len(dirs) : dirs[i].n = name /\ Nth(dirs, i) = n } IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE

ArgOf(args, n) == LET X == { i \in 1..Len(args) : args[i].n = n } IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE

DirArgs(p, q) ==
  Flat([i \in 1..Len(q.args) |-> IF ArgOf(p.args, q.args[i].n) = 0
          THEN << Ch("DirectiveArgumentAdded", "@" \o p.n \o "." \o q.args[i].n, "", "", "", <<q.args[i].v>>, "safe") >> ELSE <<>>])
  \o Flat([i \in 1..Len(p.args) |->
       LET j == ArgOf(q.args, p.args[i].n) path == "@" \o p.n \o "." \o p.args[i].n IN
       IF j = 0 THEN << Ch("DirectiveArgumentRemoved", path, "", "", "", <<p.args[i].v>>, "safe") >>
       ELSE IF SameValue(p.args[i].v, q.args[j].v) THEN <<>>
       ELSE << Ch("DirectiveArgumentValueChanged", path, "", "", "", <<p.args[i].v, q.args[j].v>>, "safe") >>])

Dirs(old, new, loc, member) ==
  Flat([i \in 1..Len(new) |-> IF Partner(old, new[i].n, Nth(new, i)) = 0
          THEN At("DirectiveAdded", new[i].n, loc \o " " \o member, IF new[i].n = "oneOf" THEN "breaking" ELSE "safe") ELSE <<>>])
  \o Flat([i \in 1..Len(old) |->
       LET j == Partner(new, old[i].n, Nth(old, i)) IN
       IF j = 0 THEN At("DirectiveRemoved", old[i].n, loc \o " " \o member, "breaking") ELSE DirArgs(old[i], new[j])])

-----------------------------------------------------------------------------
Defaults(k, path, old, new) ==
  IF SameDef(old.def, new.def) THEN <<>>
  ELSE << Ch(k, path, (IF old.def = <<>> THEN "0" ELSE "1") \o (IF new.def = <<>> THEN "0" ELSE "1"), "", "", old.def \o new.def, DefaultCrit(new)) >>

(* an argument or input field that exists on both sides; kinds are the names of its changes *)
InputDiff(kinds, path, old, new) ==
  (IF old.desc = new.desc THEN <<>> ELSE Text(kinds.desc, path, Or(old.desc), Or(new.desc), "safe"))
  \o (IF old.type = new.type THEN <<>> ELSE Text(kinds.type, path, ShowType(old.type), ShowType(new.type), InputCrit(old.type, new.type)))
  \o Defaults(kinds.def, path, old, new)

ArgKinds == [desc |-> "FieldArgumentDescriptionChanged", type |-> "FieldArgumentTypeChanged", def |-> "FieldArgumentDefaultValueChanged"]
InputKindsOf == [desc |-> "InputFieldDescriptionChanged", type |-> "InputFieldTypeChanged", def |-> "InputFieldDefaultValueChanged"]
DirArgKinds == [desc |-> "DirectiveDefinitionArgumentDescriptionChanged", type |-> "DirectiveDefinitionArgumentTypeChanged",
                def |-> "DirectiveDefinitionArgumentDefaultValueChanged"]

FieldDiff(path, name, old, new) ==
  LET added(n) == At("FieldArgumentAdded", path \o "." \o n, "", AddedCrit(new.args[n]))
      removed(n) == At("FieldArgumentRemoved", path \o "." \o n, "", "breaking")
      both(n) == InputDiff(ArgKinds, path \o "." \o n, old.args[n], new.args[n])
                 \o Dirs(old.args[n].dirs, new.args[n].dirs, "ARGUMENT_DEFINITION", n)
  IN (IF old.desc = new.desc THEN <<>> ELSE Text("FieldDescriptionChanged", path, Or(old.desc), Or(new.desc), "safe"))
     \o (IF old.type = new.type THEN <<>>
         ELSE Text("FieldTypeChanged", path, ShowType(old.type), ShowType(new.type), IF Covariant(old.type, new.type) THEN "safe" ELSE "breaking"))
     \o Each(Added(old.args, new.args), added) \o Each(Removed(old.args, new.args), removed)
     \o Each(Common(old.args, new.args), both)
     \o Dirs(old.dirs, new.dirs, "FIELD_DEFINITION", name)

FieldsDiff(T, old, new) ==
  LET added(n) == At("FieldAdded", T \o "." \o n, "", "safe")
      removed(n) == At("FieldRemoved", T \o "." \o n, "", "breaking")
      both(n) == FieldDiff(T \o "." \o n, n, old[n], new[n])
  IN Each(Added(old, new), added) \o Each(Removed(old, new), removed) \o Each(Common(old, new), both)

Location(k) == CASE k = "object" -> "OBJECT" [] k = "interface" -> "INTERFACE" [] k = "union" -> "UNION" [] k = "enum" -> "ENUM"
                 [] k = "input" -> "INPUT_OBJECT" [] OTHER -> "SCALAR"
KindName(k) == CASE k = "input" -> "INPUT_OBJECT" [] k = "object" -> "OBJECT" [] k = "interface" -> "INTERFACE" [] k = "union" -> "UNION"
                 [] k = "enum" -> "ENUM" [] OTHER -> "SCALAR"

TypeDiff(T, old, new) ==
  LET vadd(n) == At("EnumValueAdded", T \o "." \o n, "", "dangerous")
      vrem(n) == At("EnumValueRemoved", T \o "." \o n, "", "breaking")
      vboth(n) == (IF old.values[n].desc = new.values[n].desc THEN <<>>
                   ELSE Text("EnumValueDescriptionChanged", T \o "." \o n, Or(old.values[n].desc), Or(new.values[n].desc), "safe"))
                  \o Dirs(old.values[n].dirs, new.values[n].dirs, "ENUM_VALUE", n)
      iadd(n) == At("ObjectInterfaceAddition", T, n, "dangerous")
      irem(n) == At("ObjectInterfaceRemoval", T, n, "breaking")
      madd(n) == At("UnionMemberAdded", T, n, "dangerous")
      mrem(n) == At("UnionMemberRemoved", T, n, "breaking")
      padd(n) == At("InputFieldAdded", T \o "." \o n, "", AddedCrit(new.inputs[n]))
      prem(n) == At("InputFieldRemoved", T \o "." \o n, "", "breaking")
      pboth(n) == InputDiff(InputKindsOf, T \o "." \o n, old.inputs[n], new.inputs[n])
                  \o Dirs(old.inputs[n].dirs, new.inputs[n].dirs, "INPUT_FIELD_DEFINITION", n)
  IN (IF old.k # new.k THEN Text("TypeKindChanged", T, KindName(old.k), KindName(new.k), "breaking")
      ELSE Dirs(old.dirs, new.dirs, Location(old.k), T)
           \o CASE old.k = "object" -> Each(RangeOf(new.ifaces) \ RangeOf(old.ifaces), iadd) \o Each(RangeOf(old.ifaces) \ RangeOf(new.ifaces), irem)
                                       \o FieldsDiff(T, old.fields, new.fields)
                [] old.k = "interface" -> FieldsDiff(T, old.fields, new.fields)
                [] old.k = "union" -> Each(RangeOf(new.members) \ RangeOf(old.members), madd) \o Each(RangeOf(old.members) \ RangeOf(new.members), mrem)
                [] old.k = "enum" -> Each(Added(old.values, new.values), vadd) \o Each(Removed(old.values, new.values), vrem)
                                     \o Each(Common(old.values, new.values), vboth)
                [] old.k = "input" -> Each(Added(old.inputs, new.inputs), padd) \o Each(Removed(old.inputs, new.inputs), prem)
                                      \o Each(Common(old.inputs, new.inputs), pboth)
                [] OTHER -> <<>>)
     \o (IF old.desc = new.desc THEN <<>> ELSE Text("TypeDescriptionChanged", T, Or(old.desc), Or(new.desc), "safe"))

DirectiveDiff(D, old, new) ==
  LET ladd(l) == At("DirectiveDefinitionLocationAdded", D, l, "safe")
      lrem(l) == At("DirectiveDefinitionLocationRemoved", D, l, "breaking")
      added(n) == At("DirectiveDefinitionArgumentAdded", D \o "." \o n, "", AddedCrit(new.args[n]))
      removed(n) == At("DirectiveDefinitionArgumentRemoved", D \o "." \o n, "", "breaking")
      both(n) == InputDiff(DirArgKinds, D \o "." \o n, old.args[n], new.args[n])
  IN (IF old.desc = new.desc THEN <<>> ELSE Text("DirectiveDefinitionDescriptionChanged", D, Or(old.desc), Or(new.desc), "safe"))
     \o Each(RangeOf(new.locs) \ RangeOf(old.locs), ladd) \o Each(RangeOf(old.locs) \ RangeOf(new.locs), lrem)
     \o Each(Added(old.args, new.args), added) \o Each(Removed(old.args, new.args), removed) \o Each(Common(old.args, new.args), both)

Diff(A, B) ==
  LET tadd(n) == At("TypeAdded", n, "", "safe")
      trem(n) == At("TypeRemoved", n, "", "breaking")
      tboth(n) == TypeDiff(n, A.types[n], B.types[n])
      dadd(n) == At("DirectiveDefinitionAdded", "@" \o n, "", "safe")
      drem(n) == At("DirectiveDefinitionRemoved", "@" \o n, "", "breaking")
      dboth(n) == DirectiveDiff("@" \o n, A.directives[n], B.directives[n])
  IN Each(Added(A.types, B.types), tadd) \o Each(Removed(A.types, B.types), trem) \o Each(Common(A.types, B.types), tboth)
     \o Each(Added(A.directives, B.directives), dadd) \o Each(Removed(A.directives, B.directives), drem)
     \o Each(Common(A.directives, B.directives), dboth)
     \o Dirs(A.dirs, B.dirs, "SCHEMA", "")

-----------------------------------------------------------------------------
(* The same change seen from the other side *)
MirrorKind(k) ==
  CASE k = "TypeAdded" -> "TypeRemoved" [] k = "TypeRemoved" -> "TypeAdded"
    [] k = "FieldAdded" -> "FieldRemoved" [] k = "FieldRemoved" -> "FieldAdded"
    [] k = "FieldArgumentAdded" -> "FieldArgumentRemoved" [] k = "FieldArgumentRemoved" -> "FieldArgumentAdded"
    [] k = "ObjectInterfaceAddition" -> "ObjectInterfaceRemoval" [] k = "ObjectInterfaceRemoval" -> "ObjectInterfaceAddition"
    [] k = "EnumValueAdded" -> "EnumValueRemoved" [] k = "EnumValueRemoved" -> "EnumValueAdded"
    [] k = "UnionMemberAdded" -> "UnionMemberRemoved" [] k = "UnionMemberRemoved" -> "UnionMemberAdded"
    [] k = "InputFieldAdded" -> "InputFieldRemoved" [] k = "InputFieldRemoved" -> "InputFieldAdded"
    [] k = "DirectiveDefinitionAdded" -> "DirectiveDefinitionRemoved" [] k = "DirectiveDefinitionRemoved" -> "DirectiveDefinitionAdded"
    [] k = "DirectiveDefinitionLocationAdded" -> "DirectiveDefinitionLocationRemoved"
    [] k = "DirectiveDefinitionLocationRemoved" -> "DirectiveDefinitionLocationAdded"
    [] k = "DirectiveDefinitionArgumentAdded" -> "DirectiveDefinitionArgumentRemoved"
    [] k = "DirectiveDefinitionArgumentRemoved" -> "DirectiveDefinitionArgumentAdded"
    [] k = "DirectiveAdded" -> "DirectiveRemoved" [] k = "DirectiveRemoved" -> "DirectiveAdded"
    [] k = "DirectiveArgumentAdded" -> "DirectiveArgumentRemoved" [] k = "DirectiveArgumentRemoved" -> "DirectiveArgumentAdded"
    [] OTHER -> k
Place(c) == <<c.k, c.path, c.on, c.a, c.b>>
Mirrored(c) == <<MirrorKind(c.k), c.path, CASE c.on = "01" -> "10" [] c.on = "10" -> "01" [] OTHER -> c.on, c.b, c.a>>

CountOf(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : CountOf(a, x) = CountOf(b, x)

Level(crit) == CASE crit = "safe" -> 1 [] crit = "dangerous" -> 2 [] crit = "breaking" -> 3
=============================================================================
