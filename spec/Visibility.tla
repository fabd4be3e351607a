----------------------------- MODULE Visibility -----------------------------
(* A schema seen through a choice of hidden parts: what is left of the document *)
(* when the hidden parts, and all that depends on a hidden type, are removed,   *)
(* and which of the rest is listed.                                             *)
(* H is [types, members, impls, directives], sets of names; fields, arguments,  *)
(* input fields and enum values are hidden by an applied @hide.                 *)
EXTENDS Schema

Hidden(x) == \E i \in 1..Len(x.dirs) : x.dirs[i].n = "hide"
Shown(D, H, t) == BaseRef(t).n \notin H.types

PDirs(H, ds) == SelectSeq(ds, LAMBDA d : d.n \notin H.directives)
PInputs(D, H, vs) ==
  LET f(v) == [v EXCEPT !.dirs = PDirs(H, @)]
  IN SeqOf(SelectSeq(vs, LAMBDA v : ~ Hidden(v) /\ Shown(D, H, v.type)), f)
PFields(D, H, fs) ==
  LET g(f) == [f EXCEPT !.dirs = PDirs(H, @), !.args = PInputs(D, H, @)]
  IN SeqOf(SelectSeq(fs, LAMBDA f : ~ Hidden(f) /\ Shown(D, H, f.type)), g)
PValues(H, vs) == LET f(v) == [v EXCEPT !.dirs = PDirs(H, @)] IN SeqOf(SelectSeq(vs, LAMBDA v : ~ Hidden(v)), f)

PType(D, H, t) ==
  [t EXCEPT !.dirs = PDirs(H, @),
            !.ifaces = SelectSeq(@, LAMBDA r : r.n \notin H.impls \cup H.types),
            !.members = SelectSeq(@, LAMBDA r : r.n \notin H.members \cup H.types),
            !.values = PValues(H, @),
            !.fields = IF t.k = "input" THEN PInputs(D, H, @) ELSE PFields(D, H, @)]

Prune(D, H) ==
  LET type(t) == PType(D, H, t)
      dir(d) == [d EXCEPT !.args = PInputs(D, H, @)]
      blk(s) == [s EXCEPT !.dirs = PDirs(H, @), !.roots = SelectSeq(@, LAMBDA r : r.n \notin H.types)]
  IN [schemas |-> SeqOf(D.schemas, blk),
      types |-> SeqOf(SelectSeq(D.types, LAMBDA t : t.name \notin H.types), type),
      directives |-> SeqOf(SelectSeq(D.directives, LAMBDA d : d.name \notin H.directives), dir)]

HasQuery(P) == RootName(P, "query") # ""

-----------------------------------------------------------------------------
(* Which definitions are listed: those the roots and the directives usable in  *)
(* executable documents lead to.                                               *)
ExecutableLocations == {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"}

DirNames(ds) == { ds[i].n : i \in 1..Len(ds) }
InputRefs(vs) == { <<"type", BaseRef(vs[i].type).n>> : i \in 1..Len(vs) } \cup UNION { { <<"dir", n>> : n \in DirNames(vs[i].dirs) } : i \in 1..Len(vs) }
FieldRefs(fs) == { <<"type", BaseRef(fs[i].type).n>> : i \in 1..Len(fs) }
                 \cup UNION { { <<"dir", n>> : n \in DirNames(fs[i].dirs) } \cup InputRefs(fs[i].args) : i \in 1..Len(fs) }
RefNames(rs) == { <<"type", rs[i].n>> : i \in 1..Len(rs) }
Implementors(P, n) == { P.types[i].name : i \in { j \in 1..Len(P.types) : P.types[j].k = "object" /\ n \in { P.types[j].ifaces[x].n : x \in 1..Len(P.types[j].ifaces) } } }

TypeRefs(P, t) ==
  { <<"dir", n>> : n \in DirNames(t.dirs) } \cup RefNames(t.ifaces) \cup RefNames(t.members)
  \cup UNION { { <<"dir", n>> : n \in DirNames(t.values[i].dirs) } : i \in 1..Len(t.values) }
  \cup (IF t.k = "input" THEN InputRefs(t.fields) ELSE FieldRefs(t.fields))
  \cup (IF t.k = "interface" THEN { <<"type", o>> : o \in Implementors(P, t.name) } ELSE {})

RefsOf(P, x) ==
  IF x[1] = "type" THEN IF x[2] \in Names(P.types) THEN UNION { TypeRefs(P, t) : t \in { Def(P.types, x[2]) } } ELSE {}
  ELSE IF x[2] \in Names(P.directives) THEN UNION { InputRefs(d.args) : d \in { Def(P.directives, x[2]) } } ELSE {}

RECURSIVE Spread(_, _, _)
Spread(P, X, todo) ==
  IF todo = {} THEN X
  ELSE UNION { Spread(P, X \cup new, new) : new \in { TLCEval((UNION { RefsOf(P, x) : x \in todo }) \ X) } }

Starts(P) ==
  { <<"type", RootName(P, op)>> : op \in { o \in Ops : RootName(P, o) # "" } }
  \cup { <<"dir", P.directives[i].name>> : i \in { j \in 1..Len(P.directives) : RangeOf(P.directives[j].locs) \cap ExecutableLocations # {} } }
  \cup UNION { { <<"dir", n>> : n \in DirNames(P.schemas[i].dirs) } : i \in 1..Len(P.schemas) }
Reach(P) == UNION { TLCEval(Spread(P, s, s)) : s \in { TLCEval(Starts(P)) } }
ListedTypes(P, R) == { n \in Names(P.types) : <<"type", n>> \in R }
ListedDirectives(P, R) == { n \in Names(P.directives) : <<"dir", n>> \in R }

Listed(P, R) ==
  [P EXCEPT !.types = SelectSeq(@, LAMBDA t : <<"type", t.name>> \in R),
            !.directives = SelectSeq(@, LAMBDA d : <<"dir", d.name>> \in R)]
=============================================================================
