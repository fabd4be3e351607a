---------------------------- MODULE SchemaModel ----------------------------
(* Type system documents written definition by definition, as a machine that *)
(* appends one definition of a vocabulary (a theme) at a time. TLC reaches   *)
(* every document of at most N definitions; each is printed and given to the *)
(* real code. Invariants: what a document means does not depend on the order *)
(* of its definitions, adding definitions never makes a resolved reference   *)
(* dangle, what a document shows has no dangling reference, and the cycles   *)
(* of input objects are those that leave some type without any finite value. *)
EXTENDS Schema, Json, IOUtils

(* [n |-> N, strict |-> each step takes a later item, keep |-> which documents are printed,
    items |-> << [part |-> "types" | "directives" | "schemas", nodes |-> << the definition as written at place 1, 2, ... >>] >>] *)
Input == JsonDeserialize(IOEnv.MODEL)

VARIABLES doc, picks
vars == <<doc, picks>>

Init == doc = [schemas |-> <<>>, types |-> <<>>, directives |-> <<>>] /\ picks = <<>>
Next == /\ Len(picks) < Input.n
        /\ \E i \in 1..Len(Input.items) :
             /\ Input.strict /\ picks # <<>> => Input.items[i].group > Input.items[picks[Len(picks)]].group
             /\ \E it \in {Input.items[i]} :
                  doc' = [doc EXCEPT ![it.part] = Append(doc[it.part], it.nodes[Len(picks) + 1])]
             /\ picks' = Append(picks, i)
             /\ PrintT(ToJson([p |-> picks', e |-> Len(BuildErrors(doc'))]))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
CountIn(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : CountIn(a, x) = CountIn(b, x)
Unique == Cardinality(Names(doc.types)) = Len(doc.types) /\ Cardinality(Names(doc.directives)) = Len(doc.directives)
Turn(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Turned == [schemas |-> Turn(doc.schemas), types |-> Turn(doc.types), directives |-> Turn(doc.directives)]

OrderIrrelevant ==
  Unique => /\ SameBag(TLCEval(BuildErrors(doc)), TLCEval(BuildErrors(Turned)))
            /\ SameBag(TLCEval(Rules(doc)), TLCEval(Rules(Turned)))

(* a reference that is resolved stays resolved when definitions are added, and to the same kind *)
Dangling(D) == { e \in RangeOf(ReferenceErrors(D)) : e.k \in {"ReferencedTypeDoesNotExist", "ReferencedDirectiveDoesNotExist"} }
Monotone == [][ { e \in Dangling(doc') : \A a \in e.locs : a <= 100 * Len(picks) } \subseteq Dangling(doc) ]_vars

(* a document that builds has a query root, and everything it shows is of a kind allowed there *)
Uses(D) == UNION { LET t == D.types[i] IN
                   UNION { {BaseRef(t.fields[j].type).n} \cup (IF t.k = "input" THEN {} ELSE { BaseRef(t.fields[j].args[a].type).n : a \in 1..Len(t.fields[j].args) })
                           : j \in 1..Len(t.fields) }
                   \cup { t.ifaces[j].n : j \in 1..Len(t.ifaces) } \cup { t.members[j].n : j \in 1..Len(t.members) } : i \in Live(D) }
Closed == BuildErrors(doc) = <<>> =>
            /\ KindIn(doc, RootName(doc, "query")) = "object"
            /\ \A n \in Uses(doc) : KindIn(doc, n) # "none"
            /\ Cardinality(Names(doc.types) \cap IntrospectionObjects) = 0

(* the input types that have a finite value, from below *)
RECURSIVE Finite(_, _)
Finite(D, X) ==
  LET more == { n \in Names(D.types) : KindIn(D, n) = "input" /\ Needs(D, n) \subseteq X } IN
  IF more = X THEN X ELSE Finite(D, more)
Circles == { f.x : f \in { g \in RangeOf(Rules(doc)) : g.k = "Circular" } }
Inputs == { n \in Names(doc.types) : KindIn(doc, n) = "input" }
CyclesExact == BuildErrors(doc) = <<>> => \A X \in { TLCEval(Finite(doc, {})) } :
                 /\ Circles \cap X = {}
                 /\ Circles = {} <=> X = Inputs
                 /\ \A n \in Inputs \ X : \E m \in {n} \cup NeededBy(doc, n) : m \in Circles
=============================================================================
