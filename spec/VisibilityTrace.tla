--------------------------- MODULE VisibilityTrace ---------------------------
(* Trace validation of filtered schemas: each line has a document, what is     *)
(* hidden, and what the filtered schema showed: a dump, or that the query root *)
(* is hidden, and the definitions found by name. The pruned document, and the  *)
(* part of it that is listed, are printed for the comparison of everything     *)
(* else with an unfiltered schema.                                             *)
EXTENDS Visibility, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

Hides(h) == [types |-> RangeOf(h.types), members |-> RangeOf(h.members), impls |-> RangeOf(h.impls), directives |-> RangeOf(h.directives)]

Found(P, x) ==
  IF x.n \in Names(P.types) THEN \E t \in {Def(P.types, x.n)} : x.got = << DType(P, t) >> ELSE x.got = <<>>

Wrong(P, T, Dn, t) ==
  IF ~ HasQuery(P) THEN (IF t.hidden THEN {} ELSE {"query root"})
  ELSE IF t.hidden THEN {"query root"}
  ELSE (IF Shows(P, T, Dn, t.dump) THEN {} ELSE {"dump"}) \cup { t.names[i].n : i \in { j \in 1..Len(t.names) : ~ Found(P, t.names[j]) } }

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} : \E H \in {Hides(t.hide)} : \E P \in {TLCEval(Prune(t.doc, H))} : \E R \in {Reach(P)} :
     \E T \in {ListedTypes(P, R)}, Dn \in {ListedDirectives(P, R)}, L \in {Listed(P, R)} :
     \E wrong \in {Wrong(P, T, Dn, t)} :
        /\ rejected' = IF wrong = {} THEN rejected ELSE rejected + 1
        /\ PrintT(ToJson([line |-> t.line, wrong |-> wrong, types |-> T, directives |-> Dn, pruned |-> P, listed |-> L, query |-> HasQuery(P)]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
