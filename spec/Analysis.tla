------------------------------ MODULE Analysis ------------------------------
(* What the operation analyses report: the operation that runs, its depth,   *)
(* its cost, the lists it passes and the deprecated things it uses.          *)
(* Schema records carry, besides what Validation needs, dep (<<>> or         *)
(* <<reason>>) for fields, arguments and input fields, deps (enum value ->   *)
(* <<reason>>), and for fields w (weight, -1 = none) and conn (connection).  *)
EXTENDS Validation

-----------------------------------------------------------------------------
(* Which operation runs *)
Select(d, name) ==
  IF name # <<>>
  THEN IF \E i \in 1..Len(d.ops) : d.ops[i].name = name[1] /\ d.ops[i].name # ""
       THEN [ok |-> TRUE, op |-> d.ops[CHOOSE i \in 1..Len(d.ops) : d.ops[i].name = name[1] /\ \A j \in 1..(i - 1) : d.ops[j].name # name[1]]]
       ELSE [ok |-> FALSE, e |-> "NoOperation " \o name[1]]
  ELSE IF Len(d.ops) = 1 THEN [ok |-> TRUE, op |-> d.ops[1]] ELSE [ok |-> FALSE, e |-> "Anonymous"]

-----------------------------------------------------------------------------
(* Values of variables as analyses see them.  given : name -> value. *)
HasVar(o, n) == \E i \in 1..Len(o.vars) : o.vars[i].name = n
VarDef(o, n) == o.vars[CHOOSE i \in 1..Len(o.vars) : o.vars[i].name = n]

(* the value of a variable of the given named type and value kind: <<>> or <<v>> *)
Evaluate(o, given, n, type, kind) ==
  IF ~HasVar(o, n) \/ VarDef(o, n).type.k # "N" \/ VarDef(o, n).type.n # type THEN <<>>
  ELSE LET v == IF n \in DOMAIN given THEN <<given[n]>> ELSE VarDef(o, n).def
       IN IF v # <<>> /\ v[1].k = kind THEN v ELSE <<>>

First(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i])
                  THEN << s[CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])] >> ELSE <<>>

Condition(o, given, dirs, name) ==
  LET q == First(dirs, LAMBDA x : x.n = name)
      a == IF q = <<>> THEN <<>> ELSE First(q[1].args, LAMBDA x : x.n = "if")
      v == IF a = <<>> THEN [k |-> "none"] ELSE a[1].v
  IN IF v.k = "bool" THEN <<v.b>>
     ELSE IF v.k = "var" THEN LET e == Evaluate(o, given, v.s, "Boolean", "bool") IN IF e = <<>> THEN <<>> ELSE <<e[1].b>>
     ELSE <<>>

Included(o, given, dirs) ==
  Condition(o, given, dirs, "skip") # <<TRUE>> /\ Condition(o, given, dirs, "include") # <<FALSE>>

-----------------------------------------------------------------------------
(* The visits of an analysis: fields with their nesting, and arguments of    *)
(* fields and directives; a fragment is entered wherever it is spread.       *)
ArgEvents(args, defs) ==
  LET known == SelectSeq(args, LAMBDA a : Has(defs, a.n)) IN
  [i \in 1..Len(known) |-> [t |-> "arg", a |-> known[i], def |-> defs[known[i].n]]]
DirEvents(S, dirs) ==
  Flat([i \in 1..Len(dirs) |-> IF Has(S.directives, dirs[i].n) THEN ArgEvents(dirs[i].args, S.directives[dirs[i].n].args) ELSE <<>>])

RECURSIVE Events(_, _, _, _, _, _, _, _, _)
Events(S, d, o, given, sels, scope, inc, depth, path) ==
  Flat([i \in 1..Len(sels) |->
    LET s == sels[i]
        in == inc /\ Included(o, given, s.dirs) IN
    CASE s.k = "field" ->
      IF ~HasField(S, scope, s.name) THEN <<>>
      ELSE LET fd == FieldDef(S, scope, s.name) IN
        << [t |-> "field", n |-> s, def |-> fd, inc |-> in, depth |-> depth + 1] >>
        \o DirEvents(S, s.dirs) \o ArgEvents(s.args, fd.args)
        \o (IF s.sel # <<>> /\ Has(S.types, BaseName(fd.type))
            THEN Events(S, d, o, given, s.sel, BaseName(fd.type), in, depth + 1, path) ELSE <<>>)
    [] s.k = "inl" ->
        LET on == IF s.on = "" THEN scope ELSE s.on IN
        DirEvents(S, s.dirs)
        \o (IF Has(S.types, on) THEN Events(S, d, o, given, s.sel, on, in, depth, path) ELSE <<>>)
    [] s.k = "spr" ->
        DirEvents(S, s.dirs)
        \o (IF s.name \in path \/ s.name \notin FragNames(d) \/ ~Has(S.types, FragByName(d, s.name).on) THEN <<>>
            ELSE Events(S, d, o, given, FragByName(d, s.name).sel, FragByName(d, s.name).on, in, depth, path \cup {s.name}))])

OpEvents(S, d, o, given) ==
  DirEvents(S, o.dirs)
  \o (IF RootName(S, o.op) # "" THEN Events(S, d, o, given, o.sel, RootName(S, o.op), TRUE, 0, {}) ELSE <<>>)

MaxOf(X) == IF X = {} THEN 0 ELSE CHOOSE x \in X : \A y \in X : y <= x

Depth(EV) == MaxOf({ EV[i].depth : i \in { j \in 1..Len(EV) : EV[j].t = "field" /\ EV[j].inc } })

-----------------------------------------------------------------------------
(* Lists longer than max, where they are; a list that is too long is not searched further *)
RECURSIVE BigLists(_, _, _, _, _)
BigLists(o, given, max, name, v) ==
  CASE v.k = "list" ->
         IF Len(v.l) > max THEN << [n |-> Len(v.l), x |-> name] >>
         ELSE Flat([i \in 1..Len(v.l) |-> BigLists(o, given, max, name \o "." \o ToString(i - 1), v.l[i])])
    [] v.k = "obj" -> Flat([i \in 1..Len(v.o) |-> BigLists(o, given, max, name \o "." \o v.o[i].n, v.o[i].v)])
    [] v.k = "var" ->
         IF v.s \in DOMAIN given THEN BigLists(o, given, max, name, given[v.s])
         ELSE IF HasVar(o, v.s) /\ VarDef(o, v.s).def # <<>> THEN BigLists(o, given, max, name, VarDef(o, v.s).def[1])
         ELSE <<>>
    [] OTHER -> <<>>

Sizes(EV, o, given, max) ==
  LET A == SelectSeq(EV, LAMBDA e : e.t = "arg") IN
  Flat([i \in 1..Len(A) |-> BigLists(o, given, max, A[i].a.n, A[i].a.v)])

-----------------------------------------------------------------------------
(* Deprecated things used *)
Offence(k, x, r) == [k |-> k, x |-> x, r |-> r]
Dep(k, x, dep) == IF dep = <<>> THEN <<>> ELSE << Offence(k, x, dep[1]) >>

RECURSIVE DepValue(_, _, _, _, _)
DepValue(S, t, v, name, mode) ==
  IF t.k = "L"
  THEN IF v.k = "list" THEN Flat([i \in 1..Len(v.l) |-> DepValue(S, t.of, v.l[i], name, mode)])
       ELSE DepValue(S, t.of, v, name, mode)
  ELSE LET td == S.types[t.n] IN
    CASE td.k = "enum" -> IF (v.k = "enum" \/ (v.k = "str" /\ mode = "json")) /\ Has(td.deps, v.s)
                          THEN Dep("EnumValue", name, td.deps[v.s]) ELSE <<>>
      [] td.k = "input" /\ v.k = "obj" ->
           LET known == SelectSeq(v.o, LAMBDA e : Has(td.inputs, e.n)) IN
           Flat([i \in 1..Len(known) |-> Dep("InputField", known[i].n, td.inputs[known[i].n].dep)
                                          \o DepValue(S, td.inputs[known[i].n].type, known[i].v, name, mode)])
      [] OTHER -> <<>>

Deprecated(S, EV, o, given) ==
  Flat([i \in 1..Len(EV) |->
    IF EV[i].t = "field" THEN IF EV[i].inc THEN Dep("Field", EV[i].n.name, EV[i].def.dep) ELSE <<>>
    ELSE Dep("Argument", EV[i].a.n, EV[i].def.dep) \o DepValue(S, EV[i].def.type, EV[i].a.v, EV[i].a.n, "lit")])
  \o Flat([i \in 1..Len(o.vars) |->
       LET q == o.vars[i] IN
       IF ~IsInputName(S, BaseName(q.type)) THEN <<>>
       ELSE (IF q.name \in DOMAIN given THEN DepValue(S, q.type, given[q.name], q.name, "json") ELSE <<>>)
            \o (IF q.def # <<>> THEN DepValue(S, q.type, q.def[1], q.name, "lit") ELSE <<>>)])

-----------------------------------------------------------------------------
(* Cost.  kind "unit": every field costs 1 and nothing multiplies.  kind     *)
(* "relay": the weight of a field, or 1 if it is composite; the edges and    *)
(* nodes of a connection are multiplied by floor(2 ln n) of the page size.   *)
RECURSIVE SumOver(_, _)
SumOver(X, f) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + SumOver(X \ {x}, f)

Thresholds == <<2, 3, 5, 8, 13, 21, 34, 55, 91, 149, 245, 404, 666, 1097, 1809, 2981, 4915, 8104, 13360, 22027,
                36316, 59875, 98716, 162755, 268338, 442414, 729417, 1202605, 1982760, 3269018, 5389699, 8886111,
                14650720, 24154953, 39824785, 65659970, 108254988, 178482301, 294267567, 485165196, 799902178, 1318815735>>
TwoLn(n) == Cardinality({ i \in 1..Len(Thresholds) : Thresholds[i] <= (IF n < 2 THEN 2 ELSE n) })

FieldCost(S, kind, def) ==
  IF kind = "unit" THEN 1
  ELSE IF def.w >= 0 THEN def.w
  ELSE IF IsCompositeName(S, BaseName(def.type)) THEN 1 ELSE 0

PageArg(o, given, f, name) ==
  LET a == First(f.args, LAMBDA x : x.n = name)
      v == IF a = <<>> THEN [k |-> "none"] ELSE a[1].v
      i == IF v.k = "int" THEN <<v.i>>
           ELSE IF v.k = "var" THEN LET e == Evaluate(o, given, v.s, "Int", "int") IN IF e = <<>> THEN <<>> ELSE <<e[1].i>>
           ELSE <<>>
  IN IF i = <<>> THEN <<>> ELSE << IF i[1] < 0 THEN 0 ELSE i[1] >>

(* -1: not a connection *)
PageMultiplier(o, given, kind, f, def) ==
  IF kind = "unit" \/ ~def.conn THEN 0 - 1
  ELSE LET n == MaxOf(RangeOf(PageArg(o, given, f, "first") \o PageArg(o, given, f, "last")))
       IN IF n > 0 THEN TwoLn(n) ELSE 0

(* included fields of a selection set, fragments expanded: [f, scope, def, on], where on is the  *)
(* set of concrete types all the conditions on the way allow                                     *)
RECURSIVE Selected(_, _, _, _, _, _, _, _)
Selected(S, d, o, given, sels, scope, on, path) ==
  UNION { LET s == sels[i] IN
    IF ~Included(o, given, s.dirs) THEN {} ELSE
    CASE s.k = "field" -> IF HasField(S, scope, s.name)
           THEN {[f |-> s, scope |-> scope, def |-> FieldDef(S, scope, s.name), on |-> on \cap Possible(S, scope)]} ELSE {}
      [] s.k = "inl" -> LET c == IF s.on = "" THEN scope ELSE s.on IN
           IF Has(S.types, c) THEN Selected(S, d, o, given, s.sel, c, on \cap Possible(S, c), path) ELSE {}
      [] s.k = "spr" -> IF s.name \in path \/ s.name \notin FragNames(d) \/ ~Has(S.types, FragByName(d, s.name).on) THEN {}
           ELSE LET g == FragByName(d, s.name) IN
                Selected(S, d, o, given, g.sel, g.on, on \cap Possible(S, g.on), path \cup {s.name})
    : i \in 1..Len(sels) }

(* groups: the merged selection sets, each [sels, scope, page]                                   *)
(* how = "scope": a selection counts for every concrete type its innermost condition allows;     *)
(* how = "exec": for every concrete type that the object can have at that place                  *)
RECURSIVE CostOf(_, _, _, _, _, _, _)
CostOf(S, d, o, given, kind, how, groups) ==
  LET E == TLCEval(UNION { { [f |-> e.f, def |-> e.def, on |-> IF how = "scope" THEN Possible(S, e.scope) ELSE e.on, page |-> g.page] :
                               e \in Selected(S, d, o, given, g.sels, g.scope, Possible(S, g.scope), {}) } : g \in groups })
      types == UNION { e.on : e \in E }
      CostFor(T) ==
        LET X == { e \in E : T \in e.on }
            keys == { ResponseName(e.f) : e \in X }
            Key(q) ==
              LET Y == { e \in X : ResponseName(e.f) = q }
                  own == MaxOf({ FieldCost(S, kind, e.def) : e \in Y })
                  mult == MaxOf({ IF e.page >= 0 /\ e.f.name \in {"edges", "nodes"} THEN e.page ELSE 1 : e \in Y })
                  sub == { [sels |-> e.f.sel, scope |-> BaseName(e.def.type), page |-> PageMultiplier(o, given, kind, e.f, e.def)] :
                             e \in { z \in Y : z.f.sel # <<>> /\ Has(S.types, BaseName(z.def.type)) } }
              IN (own + CostOf(S, d, o, given, kind, how, sub)) * mult
        IN SumOver(keys, [q \in keys |-> Key(q)])
  IN IF groups = {} THEN 0 ELSE MaxOf({ CostFor(T) : T \in types })

Cost(S, d, o, given, kind, how) ==
  IF RootName(S, o.op) = "" THEN 0
  ELSE CostOf(S, d, o, given, kind, how, {[sels |-> o.sel, scope |-> RootName(S, o.op), page |-> 0 - 1]})
=============================================================================
