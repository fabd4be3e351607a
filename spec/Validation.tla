----------------------------- MODULE Validation -----------------------------
(* Section 5 of the GraphQL specification: which facts validation reports    *)
(* about a document, for every rule the validator implements.                *)
(*                                                                            *)
(* Walk* follows the document the way type information flows: everything     *)
(* below a field or type condition that does not resolve is out of reach     *)
(* (the unresolved name itself is reported).  Every rule is then a set of    *)
(* facts over the visits of the walk.                                        *)
EXTENDS Coercion

-----------------------------------------------------------------------------
(* Visits *)
ArgVisits(args, defs, root) ==
  [i \in 1..Len(args) |-> [t |-> "arg", n |-> args[i], known |-> Has(defs, args[i].n), defs |-> defs, root |-> root]]

DirVisits(S, dirs, loc, root, const) ==
  IF dirs = <<>> THEN <<>> ELSE
  << [t |-> "dirs", ds |-> dirs, loc |-> loc, root |-> root] >> \o
  Flat([i \in 1..Len(dirs) |->
    << [t |-> "dir", n |-> dirs[i], loc |-> loc, root |-> root] >> \o
    (IF Has(S.directives, dirs[i].n)
     THEN << [t |-> "args", id |-> dirs[i].id, args |-> dirs[i].args, defs |-> S.directives[dirs[i].n].args, root |-> root, on |-> "dir"] >>
          \o ArgVisits(dirs[i].args, S.directives[dirs[i].n].args, root)
     ELSE << [t |-> "args", id |-> dirs[i].id, args |-> dirs[i].args, root |-> root, on |-> "unknown"] >>)])

RECURSIVE Walk(_, _, _, _)
Walk(S, sels, scope, root) ==
  << [t |-> "selset", sels |-> sels, scope |-> scope, root |-> root] >> \o
  Flat([i \in 1..Len(sels) |->
    LET s == sels[i] IN
    CASE s.k = "field" ->
      IF ~HasField(S, scope, s.name)
      THEN << [t |-> "nofield", n |-> s, scope |-> scope, root |-> root] >>
      ELSE LET fd == FieldDef(S, scope, s.name)
               base == BaseName(fd.type) IN
        << [t |-> "field", n |-> s, scope |-> scope, def |-> fd, root |-> root],
           [t |-> "args", id |-> s.id, args |-> s.args, defs |-> fd.args, root |-> root, on |-> "field"] >>
        \o DirVisits(S, s.dirs, "FIELD", root, FALSE)
        \o ArgVisits(s.args, fd.args, root)
        \o (IF s.sel # <<>> /\ Has(S.types, base) THEN Walk(S, s.sel, base, root) ELSE <<>>)
    [] s.k = "inl" ->
        << [t |-> "inl", n |-> s, scope |-> scope, root |-> root] >>
        \o DirVisits(S, s.dirs, "INLINE_FRAGMENT", root, FALSE)
        \o (IF s.on = "" THEN Walk(S, s.sel, scope, root)
            ELSE IF Has(S.types, s.on) THEN Walk(S, s.sel, s.on, root) ELSE <<>>)
    [] s.k = "spr" ->
        << [t |-> "spr", n |-> s, scope |-> scope, root |-> root] >>
        \o DirVisits(S, s.dirs, "FRAGMENT_SPREAD", root, FALSE)])

RootName(S, op) ==
  CASE op = "query" -> S.query [] op = "mutation" -> S.mutation [] op = "subscription" -> S.subscription

OpLocation(op) ==
  CASE op = "query" -> "QUERY" [] op = "mutation" -> "MUTATION" [] op = "subscription" -> "SUBSCRIPTION"

OpVisits(S, o) ==
  LET r == [k |-> "op", id |-> o.id] IN
  << [t |-> "op", n |-> o] >>
  \o DirVisits(S, o.dirs, OpLocation(o.op), r, FALSE)
  \o Flat([i \in 1..Len(o.vars) |->
        << [t |-> "vardef", n |-> o.vars[i], root |-> r] >>
        \o DirVisits(S, o.vars[i].dirs, "VARIABLE_DEFINITION", r, TRUE)])
  \o (IF RootName(S, o.op) # "" THEN Walk(S, o.sel, RootName(S, o.op), r) ELSE <<>>)

FragVisits(S, f) ==
  LET r == [k |-> "frag", id |-> f.id] IN
  << [t |-> "frag", n |-> f] >>
  \o (IF Has(S.types, f.on) THEN Walk(S, f.sel, f.on, r) ELSE <<>>)
  \o DirVisits(S, f.dirs, "FRAGMENT_DEFINITION", r, FALSE)

Visits(S, d) ==
  Flat([i \in 1..Len(d.ops) |-> OpVisits(S, d.ops[i])]) \o
  Flat([i \in 1..Len(d.frags) |-> FragVisits(S, d.frags[i])])

Of(V, tag) == SelectSeq(V, LAMBDA v : v.t = tag)
FactsOf(V, tag, F(_)) == LET W == Of(V, tag) IN UNION { F(W[i]) : i \in 1..Len(W) }

(* elements of a sequence whose key occurs more than once, as facts *)
Dups(s, Key(_), k) ==
  { Fact(k, s[i].id, Key(s[i])) :
      i \in { j \in 1..Len(s) : \E m \in 1..Len(s) : m # j /\ Key(s[m]) = Key(s[j]) } }

-----------------------------------------------------------------------------
(* 5.2 Operations *)
Operations(S, d) ==
  LET explicit == SelectSeq(d.ops, LAMBDA o : ~o.short)
      named == SelectSeq(d.ops, LAMBDA o : o.name # "")
      anon == SelectSeq(d.ops, LAMBDA o : o.name = "")
  IN Dups(named, LAMBDA o : o.name, "DuplicateOperation")
     \cup (IF Len(d.ops) # 1 THEN { Fact("LoneAnonymous", anon[i].id, "") : i \in 1..Len(anon) } ELSE {})
     \cup { Fact("OperationType", explicit[i].id, "") :
              i \in { j \in 1..Len(explicit) : RootName(S, explicit[j].op) = "" } }

(* 5.2.3.1: response keys at the root of a subscription, fragments expanded *)
RECURSIVE RootKeys(_, _, _)
RootKeys(d, sels, seen) ==
  UNION { LET s == sels[i] IN
          CASE s.k = "field" -> {ResponseName(s)}
            [] s.k = "inl" -> RootKeys(d, s.sel, seen)
            [] s.k = "spr" -> IF s.name \in seen THEN {} ELSE
                 UNION { RootKeys(d, d.frags[j].sel, seen \cup {s.name}) :
                           j \in { m \in 1..Len(d.frags) : d.frags[m].name = s.name } }
        : i \in 1..Len(sels) }

Subscriptions(S, d) ==
  { Fact("SubscriptionRoot", d.ops[i].id, "") :
      i \in { j \in 1..Len(d.ops) : d.ops[j].op = "subscription"
                                     /\ Cardinality(RootKeys(d, d.ops[j].sel, {})) # 1 } }

-----------------------------------------------------------------------------
(* 5.3.1, 5.3.3 Fields *)
Fields(S, V) ==
  FactsOf(V, "nofield", LAMBDA v : IF Has(S.types, v.scope) /\ IsCompositeName(S, v.scope)
                                     THEN {Fact("UnknownField", v.n.id, v.scope)} ELSE {})
  \cup FactsOf(V, "field", LAMBDA v :
        LET base == BaseName(v.def.type) IN
        IF IsLeafName(S, base) THEN IF v.n.sel # <<>> THEN {Fact("LeafSelection", v.n.id, "")} ELSE {}
        ELSE IF v.n.sel = <<>> THEN {Fact("NoSelection", v.n.id, "")} ELSE {})

-----------------------------------------------------------------------------
(* 5.4 Arguments *)
Arguments(S, V) ==
  FactsOf(V, "args", LAMBDA v :
    Dups(v.args, LAMBDA a : a.n, "DuplicateArgument")
    \cup (IF v.on = "unknown" THEN {} ELSE
          { Fact("UnknownArgument", v.args[i].id, v.args[i].n) :
              i \in { j \in 1..Len(v.args) : ~Has(v.defs, v.args[j].n) } }
          \cup { Fact("MissingArgument", v.id, a) :
                   a \in { b \in DOMAIN v.defs : Required(v.defs[b].type, v.defs[b].def)
                                                 /\ \A j \in 1..Len(v.args) : v.args[j].n # b } }))

-----------------------------------------------------------------------------
(* 5.5 Fragments.  Fragment names are assumed unique where one is looked up. *)
FragNames(d) == { d.frags[i].name : i \in 1..Len(d.frags) }
FragByName(d, n) == d.frags[CHOOSE i \in 1..Len(d.frags) : d.frags[i].name = n]

RECURSIVE SpreadsIn(_)
SpreadsIn(sels) ==
  UNION { LET s == sels[i] IN
          IF s.k = "spr" THEN {[n |-> s.name, id |-> s.id]} ELSE SpreadsIn(s.sel) : i \in 1..Len(sels) }

RECURSIVE ReachFrom(_, _, _)
ReachFrom(d, todo, seen) ==
  IF todo = {} THEN seen ELSE
  LET n == CHOOSE m \in todo : TRUE
      new == IF n \in FragNames(d) THEN { s.n : s \in SpreadsIn(FragByName(d, n).sel) } ELSE {}
  IN ReachFrom(d, (todo \cup new) \ (seen \cup {n}), seen \cup {n})

(* fragments reachable by following at least one spread from fragment n *)
Reach(d, n) == ReachFrom(d, { s.n : s \in SpreadsIn(FragByName(d, n).sel) }, {})

CyclicFragments(d) == { n \in FragNames(d) : n \in Reach(d, n) }
(* spreads on a cycle: spread of m inside n with n reachable from m *)
CyclicSpreads(d) ==
  UNION { { s.id : s \in { q \in SpreadsIn(d.frags[i].sel) :
              q.n \in FragNames(d) /\ (q.n = d.frags[i].name \/ d.frags[i].name \in Reach(d, q.n)) } }
          : i \in 1..Len(d.frags) }

Fragments(S, d, V) ==
  LET spreads == { Of(V, "spr")[i].n.name : i \in 1..Len(Of(V, "spr")) }
      CondFacts(n, on) ==
        IF ~Has(S.types, on) THEN {Fact("UnknownTypeCondition", n.id, "")}
        ELSE IF ~IsCompositeName(S, on) THEN {Fact("NotComposite", n.id, "")} ELSE {}
      SpreadFacts(n, on, scope) ==
        IF IsCompositeName(S, on) /\ IsCompositeName(S, scope) /\ Possible(S, on) \cap Possible(S, scope) = {}
        THEN {Fact("ImpossibleSpread", n.id, scope)} ELSE {}
  IN Dups(d.frags, LAMBDA f : f.name, "DuplicateFragment")
     \cup UNION { CondFacts(d.frags[i], d.frags[i].on) : i \in 1..Len(d.frags) }
     \cup FactsOf(V, "inl", LAMBDA v : IF v.n.on = "" THEN {} ELSE
            CondFacts(v.n, v.n.on) \cup SpreadFacts(v.n, v.n.on, v.scope))
     \cup FactsOf(V, "spr", LAMBDA v : IF v.n.name \notin FragNames(d)
            THEN {Fact("UnknownFragment", v.n.id, v.n.name)}
            ELSE SpreadFacts(v.n, FragByName(d, v.n.name).on, v.scope))
     \cup { Fact("UnusedFragment", d.frags[i].id, "") :
              i \in { j \in 1..Len(d.frags) : d.frags[j].name \notin spreads } }

-----------------------------------------------------------------------------
(* 5.6 Values *)
ValueFacts(S, t, v) == { Fact("Value" \o e.k, e.id, e.x) : e \in LiteralDefects(S, t, v) }

Values(S, V) ==
  FactsOf(V, "arg", LAMBDA v : IF v.known THEN ValueFacts(S, v.defs[v.n.n].type, v.n.v) ELSE {})
  \cup FactsOf(V, "vardef", LAMBDA v :
        IF v.n.def # <<>> /\ IsInputName(S, BaseName(v.n.type))
        THEN ValueFacts(S, v.n.type, v.n.def[1]) ELSE {})

-----------------------------------------------------------------------------
(* 5.7 Directives *)
Directives(S, V) ==
  FactsOf(V, "dir", LAMBDA v :
    IF ~Has(S.directives, v.n.n) THEN {Fact("UnknownDirective", v.n.id, v.n.n)}
    ELSE IF v.loc \notin RangeOf(S.directives[v.n.n].locs)
         THEN {Fact("DirectiveLocation", v.n.id, v.loc)} ELSE {})
  \cup FactsOf(V, "dirs", LAMBDA v :
    Dups(SelectSeq(v.ds, LAMBDA q : Has(S.directives, q.n) /\ ~S.directives[q.n].rep),
         LAMBDA q : q.n, "DuplicateDirective"))

-----------------------------------------------------------------------------
(* 5.8 Variables *)
ReachableFrags(d, V, root) ==
  (* through the spreads actually visited *)
  LET spr == Of(V, "spr")
      direct(r) == { spr[i].n.name : i \in { j \in 1..Len(spr) : spr[j].root = r } } \cap FragNames(d)
      RECURSIVE Go(_, _)
      Go(todo, seen) == IF todo = {} THEN seen ELSE
        LET n == CHOOSE m \in todo : TRUE
            new == direct([k |-> "frag", id |-> FragByName(d, n).id])
        IN Go((todo \cup new) \ (seen \cup {n}), seen \cup {n})
  IN Go(direct(root), {})

Roots(d, V, o) ==
  LET r == [k |-> "op", id |-> o.id] IN
  {r} \cup { [k |-> "frag", id |-> FragByName(d, n).id] : n \in ReachableFrags(d, V, r) }

KnownArgs(V) == SelectSeq(V, LAMBDA v : v.t = "arg" /\ v.known)

(* uses of variables with the type and default expected at the place of use *)
RECURSIVE TypedUses(_, _, _, _, _)
TypedUses(S, t, def, place, v) ==
  CASE v.k = "var" -> << [n |-> v.s, id |-> v.id, type |-> t, def |-> def, place |-> place] >>
    [] v.k = "list" -> IF t.k # "L" THEN <<>>
         ELSE Flat([i \in 1..Len(v.l) |-> TypedUses(S, t.of, <<>>, "item", v.l[i])])
    [] v.k = "obj" -> IF KindOf(S, BaseName(t)) # "input" THEN <<>>
         ELSE LET fs == S.types[BaseName(t)].inputs IN
              Flat([i \in 1..Len(v.o) |-> IF Has(fs, v.o[i].n)
                THEN TypedUses(S, fs[v.o[i].n].type, fs[v.o[i].n].def, "field", v.o[i].v) ELSE <<>>])
    [] OTHER -> <<>>

RECURSIVE Compatible(_, _)
Compatible(vt, lt) ==
  /\ lt.r => vt.r
  /\ \/ vt.k = "L" /\ lt.k = "L" /\ Compatible(vt.of, lt.of)
     \/ vt.k = "N" /\ lt.k = "N" /\ vt.n = lt.n

NonNullDefault(def) == def # <<>> /\ def[1].k # "null"

UsageAllowed(vd, u) ==
  IF u.type.r /\ ~vd.type.r
  THEN (NonNullDefault(vd.def) \/ NonNullDefault(u.def)) /\ Compatible(vd.type, Nullable(u.type))
  ELSE Compatible(vd.type, u.type)

Variables(S, d, V) ==
  LET A == KnownArgs(V)
      uses(roots) == Flat([i \in 1..Len(A) |-> IF A[i].root \in roots THEN VarsIn(A[i].n.v) ELSE <<>>])
  IN UNION { LET o == d.ops[k]
                 U == uses(Roots(d, V, o))
                 defined == { o.vars[i].name : i \in 1..Len(o.vars) }
                 used == { U[i].n : i \in 1..Len(U) }
             IN Dups(o.vars, LAMBDA q : q.name, "DuplicateVariable")
                \cup { Fact("VariableNotInput", o.vars[i].id, o.vars[i].name) :
                         i \in { j \in 1..Len(o.vars) : ~IsInputName(S, BaseName(o.vars[j].type)) } }
                \cup { Fact("UndefinedVariable", U[i].id, ToString(o.id)) :
                         i \in { j \in 1..Len(U) : U[j].n \notin defined } }
                \cup { Fact("UnusedVariable", o.vars[i].id, o.vars[i].name) :
                         i \in { j \in 1..Len(o.vars) : o.vars[j].name \notin used } }
           : k \in 1..Len(d.ops) }

Usages(S, d, V) ==
  LET A == KnownArgs(V) IN
  UNION { LET o == d.ops[k]
              R == Roots(d, V, o)
              U == Flat([i \in 1..Len(A) |-> IF A[i].root \in R
                     THEN TypedUses(S, A[i].defs[A[i].n.n].type, A[i].defs[A[i].n.n].def, "arg", A[i].n.v) ELSE <<>>])
              Def(n) == o.vars[CHOOSE i \in 1..Len(o.vars) : o.vars[i].name = n]
          IN { Fact("VariableUsage", U[i].id, ShowType(Def(U[i].n).type) \o " " \o ShowType(U[i].type)) :
                 i \in { j \in 1..Len(U) :
                           /\ \E m \in 1..Len(o.vars) : o.vars[m].name = U[j].n
                           /\ IsInputName(S, BaseName(Def(U[j].n).type))
                           /\ ~UsageAllowed(Def(U[j].n), U[j]) } }
        : k \in 1..Len(d.ops) }

-----------------------------------------------------------------------------
(* 5.3.2 Field selection merging, as the specification words it.             *)
(* An entry is [f, parent, def]; fragments are expanded, each at most once   *)
(* along a path.  Nodes carry no identity here, so a selection set expands   *)
(* to a set and identical selections are one entry.                          *)
RECURSIVE Collect(_, _, _, _, _)
Collect(S, d, sels, scope, seen) ==
  UNION { LET s == sels[i] IN
    CASE s.k = "field" -> IF HasField(S, scope, s.name)
           THEN { [f |-> s, parent |-> scope, def |-> FieldDef(S, scope, s.name)] } ELSE {}
      [] s.k = "inl" -> LET on == IF s.on = "" THEN scope ELSE s.on IN
           IF Has(S.types, on) THEN Collect(S, d, s.sel, on, seen) ELSE {}
      [] s.k = "spr" -> IF s.name \in seen \/ s.name \notin FragNames(d) THEN {}
           ELSE LET g == FragByName(d, s.name) IN
             IF Has(S.types, g.on) THEN Collect(S, d, g.sel, g.on, seen \cup {s.name}) ELSE {}
    : i \in 1..Len(sels) }

SubFields(S, d, e) ==
  LET base == BaseName(e.def.type) IN
  IF e.f.sel # <<>> /\ Has(S.types, base) THEN Collect(S, d, e.f.sel, base, {}) ELSE {}

RECURSIVE SameValue(_, _)
SameValue(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "int" -> a.i = b.i
       [] a.k \in {"float", "str", "enum", "var"} -> a.s = b.s
       [] a.k = "bool" -> a.b = b.b
       [] a.k = "null" -> TRUE
       [] a.k = "list" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : SameValue(a.l[i], b.l[i])
       [] a.k = "obj" -> /\ Keys(a) = Keys(b)
                         /\ \A key \in Keys(a) : SameValue(FirstEntry(a, key), FirstEntry(b, key))

ArgNames(args) == { args[i].n : i \in 1..Len(args) }
ArgByName(args, n) == args[CHOOSE i \in 1..Len(args) : args[i].n = n].v
SameArgs(a, b) ==
  /\ ArgNames(a) = ArgNames(b)
  /\ \A n \in ArgNames(a) : SameValue(ArgByName(a, n), ArgByName(b, n))

RECURSIVE ShapeFits(_, _, _)
ShapeFits(S, a, b) ==
  /\ a.r = b.r
  /\ \/ a.k = "L" /\ b.k = "L" /\ ShapeFits(S, a.of, b.of)
     \/ a.k = "N" /\ b.k = "N" /\ (IsLeafName(S, a.n) \/ IsLeafName(S, b.n) => a.n = b.n)

MayOverlap(S, p, q) == p = q \/ KindOf(S, p) # "object" \/ KindOf(S, q) # "object"

(* Conflicting response keys below a pair of entries with the same response   *)
(* name.  Pairs inside one selection set are covered where that set is        *)
(* visited, so only pairs across the two sub-selections are followed here,    *)
(* and a selection is not compared with itself.                               *)
SameName(A, B) == { p \in A \X B : p[1] # p[2] /\ ResponseName(p[1].f) = ResponseName(p[2].f) }

RECURSIVE ShapeConflict(_, _, _, _)
ShapeConflict(S, d, a, b) ==
  IF ~ShapeFits(S, a.def.type, b.def.type) THEN {ResponseName(a.f)}
  ELSE IF a.f.sel = <<>> \/ b.f.sel = <<>> THEN {}
  ELSE LET A == TLCEval(SubFields(S, d, a))  B == TLCEval(SubFields(S, d, b)) IN
       UNION { ShapeConflict(S, d, p[1], p[2]) : p \in SameName(A, B) }

RECURSIVE NameConflict(_, _, _, _)
NameConflict(S, d, a, b) ==
  IF ~MayOverlap(S, a.parent, b.parent) THEN {}
  ELSE IF a.f.name # b.f.name \/ ~SameArgs(a.f.args, b.f.args) THEN {ResponseName(a.f)}
  ELSE IF a.f.sel = <<>> \/ b.f.sel = <<>> THEN {}
  ELSE LET A == TLCEval(SubFields(S, d, a))  B == TLCEval(SubFields(S, d, b)) IN
       UNION { NameConflict(S, d, p[1], p[2]) : p \in SameName(A, B) }

(* all conflicts of the document: every selection set that is visited *)
MergeConflicts(S, d, V) ==
  LET sets == { [sels |-> Of(V, "selset")[i].sels, scope |-> Of(V, "selset")[i].scope] : i \in 1..Len(Of(V, "selset")) }
  IN UNION { LET F == TLCEval(Collect(S, d, v.sels, v.scope, {})) IN
             UNION { ShapeConflict(S, d, p[1], p[2]) \cup NameConflict(S, d, p[1], p[2]) : p \in SameName(F, F) }
           : v \in sets }
=============================================================================
