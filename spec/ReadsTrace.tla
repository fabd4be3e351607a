----------------------------- MODULE ReadsTrace -----------------------------
(* Trace validation of single reads of filtered schemas. *)
EXTENDS Visibility, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

Hides(h) == [types |-> RangeOf(h.types), members |-> RangeOf(h.members), impls |-> RangeOf(h.impls), directives |-> RangeOf(h.directives)]
FieldsNamed(t, f) == SelectSeq(t.fields, LAMBDA x : x.name = f)

Right(P, R, r, got) ==
  LET known(n) == n \in Names(P.types)
      t(n) == Def(P.types, n)
      null == got.k = "null"
  IN
  CASE r[1] = "types" -> got.k = "set" /\ ListedTypes(P, R) = { n \in RangeOf(got.x) : n \in Names(P.types) }
                         /\ RangeOf(got.x) \subseteq Names(P.types) \cup BuiltinScalars \cup IntrospectionObjects \cup IntrospectionEnums
    [] r[1] = "dirs" -> got.k = "set" /\ RangeOf(got.x) = ListedDirectives(P, R) \cup BuiltinDirectives
    [] r[1] = "roots" -> got.k = "roots" /\ got.x = << RootName(P, "query"), RootName(P, "mutation"), RootName(P, "subscription") >>
    [] r[1] = "query" -> got.k = "def" /\ \E z \in {t(RootName(P, "query"))} : got.x = DType(P, z)
    [] r[1] = "type" -> IF known(r[2]) THEN got.k = "def" /\ \E z \in {t(r[2])} : got.x = DType(P, z) ELSE null
    [] r[1] = "dir" -> IF r[2] \in Names(P.directives) THEN got.k = "def" /\ \E z \in {Def(P.directives, r[2])} : got.x = DDirective(P, z) ELSE null
    [] r[1] = "impls" -> IF known(r[2]) THEN got.k = "set" /\ RangeOf(got.x) = Implementors(P, r[2]) /\ Len(got.x) = Cardinality(Implementors(P, r[2])) ELSE null
    [] r[1] = "contains" -> IF known(r[2]) THEN got.k = "bool" /\ got.x = (FieldsNamed(t(r[2]), r[3]) # <<>>) ELSE null
    [] r[1] = "fieldget" -> IF known(r[2]) /\ FieldsNamed(t(r[2]), r[3]) # <<>> THEN got.k = "def" /\ \E z \in {FieldsNamed(t(r[2]), r[3])[1]} : got.x = DField(P, z) ELSE null
    [] r[1] = "members" -> IF known(r[2])
         THEN got.k = "members" /\ got.x = SeqOf(t(r[2]).members, Name1) /\ got.has = (r[3] \in RangeOf(SeqOf(t(r[2]).members, Name1))) ELSE null
    [] OTHER -> TRUE

Step ==
  /\ l <= Len(Trace)
  /\ \E x \in {Trace[l]} : \E H \in {Hides(x.hide)} : \E P \in { TLCEval(Prune(x.doc, H)) } : \E R \in { Reach(P) } :
     \E wrong \in { IF HasQuery(P) THEN { i \in 1..Len(x.reads) : ~ Right(P, R, x.reads[i].r, x.reads[i].got) } ELSE {} } :
        /\ rejected' = IF wrong = {} THEN rejected ELSE rejected + 1
        /\ PrintT(ToJson([line |-> x.line, wrong |-> wrong]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
