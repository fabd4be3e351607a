---------------------------- MODULE TypegenRules ----------------------------
(* Which query documents a type generator may accept: those valid for the    *)
(* schema whose every selection set has one of the shapes it makes a type    *)
(* of. Facts are counted: Facts(S, d) is a sequence of kinds.                *)
(*   - on an object or interface: fields only, or one fragment spread;       *)
(*   - on a union: `__typename` first, then inline fragments on different    *)
(*     members that select fields only, or one fragment spread;              *)
(*   - a fragment spread on an interface or union must apply to everything   *)
(*     the selection set can stand for (for an interface: it is the          *)
(*     interface or one it implements), as its fields are always expected;   *)
(*   - no fragment has the name of an operation (Root if it has none), as    *)
(*     both become types of one module.                                      *)
EXTENDS Validation

DupFrags(d) == Cardinality(FragNames(d)) # Len(d.frags)

(* valid by the rules of GraphQL; the later rules are asked only where the earlier ones leave sense *)
ValidDoc(S, d, V) ==
  /\ ~DupFrags(d)
  /\ Operations(S, d) = {} /\ Fields(S, V) = {} /\ Arguments(S, V) = {} /\ Values(S, V) = {} /\ Directives(S, V) = {}
  /\ Variables(S, d, V) = {}
  /\ Fragments(S, d, V) = {} /\ CyclicFragments(d) = {}
  /\ Usages(S, d, V) = {} /\ Subscriptions(S, d) = {}
  /\ MergeConflicts(S, d, V) = {}

Spreads(sels) == { i \in 1..Len(sels) : sels[i].k = "spr" }
Inlines(sels) == SelectSeq(sels, LAMBDA s : s.k = "inl")
AllOf(S, t) == Possible(S, t)

(* a fragment on type t applies to whatever a set on the union u can stand for *)
CoversUnion(S, u, t) == t = u \/ AllOf(S, u) \subseteq AllOf(S, t)
CoversInterface(S, i, t) == t = i \/ t \in RangeOf(S.types[i].ifaces)

Repeat(x, n) == [i \in 1..n |-> x]
SetFacts(S, d, v) ==
  LET sels == v.sels
      kind == KindOf(S, v.scope)
      sp == Spreads(sels)
      inls == Inlines(sels)
      lone == Len(sels) = 1 /\ sp # {}
      mixed == sp # {} /\ Len(sels) # 1
      first == Len(sels) > 0 /\ sels[1].k = "field" /\ sels[1].name = "__typename" /\ sels[1].alias = ""
      fields == Cardinality({ i \in 1..Len(sels) : sels[i].k = "field" })
      members == IF kind = "union" THEN RangeOf(S.types[v.scope].members) ELSE {}
      on == { inls[i].on : i \in 1..Len(inls) } \cap members
      target == FragByName(d, sels[1].name).on
  IN IF kind = "object" THEN (IF mixed THEN <<"NotAlone">> ELSE <<>>) \o Repeat("InlineOnObject", Len(inls))
     ELSE IF kind = "interface" THEN (IF mixed THEN <<"NotAlone">> ELSE <<>>) \o Repeat("InlineOnInterface", Len(inls))
          \o (IF lone /\ ~CoversInterface(S, v.scope, target) THEN <<"SpreadOnInterface">> ELSE <<>>)
     ELSE IF kind # "union" THEN <<>>
     ELSE IF lone THEN (IF CoversUnion(S, v.scope, target) THEN <<>> ELSE <<"SpreadOnUnion">>)
     ELSE (IF mixed THEN <<"NotAlone">> ELSE <<>>)
          \o (IF first THEN <<>> ELSE <<"NoTypename">>)
          \o Repeat("FieldOnUnion", fields - (IF first THEN 1 ELSE 0))
          \o Repeat("SpreadInMember", Cardinality({ i \in 1..Len(inls) : inls[i].on \in members /\ Len(inls[i].sel) = 1 /\ inls[i].sel[1].k = "spr" }))
          \o Repeat("NotAMember", Cardinality({ i \in 1..Len(inls) : inls[i].on \notin members }))
          \o Repeat("MemberTwice", Cardinality({ m \in on : Cardinality({ i \in 1..Len(inls) : inls[i].on = m }) > 1 }))

OpTypeName(o) == IF o.name = "" THEN "Root" ELSE o.name
Clashes(d) == Repeat("NameClash", Cardinality({ i \in 1..Len(d.ops) : OpTypeName(d.ops[i]) \in FragNames(d) }))

OwnFacts(S, d, V) ==
  LET sets == Of(V, "selset") IN Clashes(d) \o Flat([i \in 1..Len(sets) |-> SetFacts(S, d, sets[i])])

(* <<"Invalid">> if GraphQL does not allow the document *)
Facts(S, d, V) == IF ~ValidDoc(S, d, V) THEN <<"Invalid">> ELSE OwnFacts(S, d, V)

----------------------------------------------------------------------------
(* Why these: a response for a concrete type p has the keys the selection    *)
(* set gives for p; the type made for the set wants some of them.            *)
RECURSIVE Given(_, _, _, _), Wanted(_, _, _, _, _)
Given(S, d, p, sels) ==
  UNION { LET s == sels[i] IN
          CASE s.k = "field" -> { ResponseName(s) }
            [] s.k = "inl" -> IF s.on = "" \/ p \in AllOf(S, s.on) THEN Given(S, d, p, s.sel) ELSE {}
            [] s.k = "spr" -> LET g == FragByName(d, s.name) IN IF p \in AllOf(S, g.on) THEN Given(S, d, p, g.sel) ELSE {}
          : i \in 1..Len(sels) }
Wanted(S, d, p, scope, sels) ==
  IF Len(sels) = 1 /\ sels[1].k = "spr" THEN Wanted(S, d, p, FragByName(d, sels[1].name).on, FragByName(d, sels[1].name).sel)
  ELSE IF KindOf(S, scope) = "union"
  THEN {"__typename"} \cup UNION { Wanted(S, d, p, p, sels[i].sel) : i \in { j \in 1..Len(sels) : sels[j].k = "inl" /\ sels[j].on = p } }
  ELSE { ResponseName(sels[i]) : i \in { j \in 1..Len(sels) : sels[j].k = "field" } }
Decodable(S, d, V) ==
  \A v \in RangeOf(Of(V, "selset")) : \A p \in AllOf(S, v.scope) : Wanted(S, d, p, v.scope, v.sels) \subseteq Given(S, d, p, v.sels)

(* what the generator knows how to make a type of *)
OnlyFields(sels) == \A i \in 1..Len(sels) : sels[i].k = "field"
Shape(S, scope, sels) ==
  \/ Len(sels) = 1 /\ sels[1].k = "spr"
  \/ KindOf(S, scope) # "union" /\ OnlyFields(sels)
  \/ KindOf(S, scope) = "union" /\ \A i \in 1..Len(sels) :
       IF i = 1 THEN sels[1].k = "field" /\ sels[1].name = "__typename"
       ELSE sels[i].k = "inl" /\ sels[i].on \in RangeOf(S.types[scope].members) /\ OnlyFields(sels[i].sel)
Shaped(S, d, V) == \A v \in RangeOf(Of(V, "selset")) : Shape(S, v.scope, v.sels)
=============================================================================
