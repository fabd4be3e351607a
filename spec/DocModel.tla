------------------------------ MODULE DocModel ------------------------------
(* Executable documents written selection by selection, as a machine: open a *)
(* definition, add a selection, open or close a selection set. TLC reaches   *)
(* every document of at most N selections over a small vocabulary (a theme)  *)
(* and a small schema; every complete one is emitted and given to the real   *)
(* code. Invariants relate what the specification says about a document to   *)
(* what it says about documents that must mean the same.                     *)
EXTENDS Validation, Json, IOUtils

(* [schema, items |-> <<[open, node]>>, defs |-> <<[frag, node]>>, n |-> N, cap |-> definitions] *)
Input == JsonDeserialize(IOEnv.MODEL)
S == Input.schema

VARIABLES doc, path, n, last
vars == <<doc, path, n, last>>
(* path: where selections are being added: <<"ops" or "frags", index, index, ...>>, or <<>> between definitions *)

RECURSIVE AddIn(_, _, _), SelAt(_, _)
AddIn(sels, p, x) == IF p = <<>> THEN Append(sels, x)
                     ELSE [sels EXCEPT ![p[1]] = [sels[p[1]] EXCEPT !.sel = AddIn(sels[p[1]].sel, Tail(p), x)]]
SelAt(sels, p) == IF p = <<>> THEN sels ELSE SelAt(sels[p[1]].sel, Tail(p))
Current == IF path = <<>> THEN <<>> ELSE SelAt(doc[path[1]][path[2]].sel, SubSeq(path, 3, Len(path)))

Define(i) == /\ path = <<>> /\ i >= last
             /\ Len(doc.ops) + Len(doc.frags) < Input.cap
             /\ \E w \in { IF Input.defs[i].frag THEN "frags" ELSE "ops" } :
                  /\ doc' = [doc EXCEPT ![w] = Append(doc[w], Input.defs[i].node)]
                  /\ path' = <<w, Len(doc[w]) + 1>>
             /\ last' = IF Input.defs[i].again THEN i ELSE i + 1
             /\ n' = n
Add(i) == /\ path # <<>> /\ n < Input.n
          /\ doc' = [doc EXCEPT ![path[1]] = [doc[path[1]] EXCEPT ![path[2]] =
                       [doc[path[1]][path[2]] EXCEPT !.sel = AddIn(doc[path[1]][path[2]].sel, SubSeq(path, 3, Len(path)), Input.items[i].node)]]]
          /\ path' = IF Input.items[i].open THEN Append(path, Len(Current) + 1) ELSE path
          /\ n' = n + 1 /\ last' = last
Close == /\ path # <<>> /\ Current # <<>>
         /\ path' = IF Len(path) = 2 THEN <<>> ELSE SubSeq(path, 1, Len(path) - 1)
         /\ UNCHANGED <<doc, n, last>>
         /\ path' = <<>> => PrintT(ToJson(doc))

Init == doc = [ops |-> <<>>, frags |-> <<>>] /\ path = <<>> /\ n = 0 /\ last = 1
Next == (\E i \in 1..Len(Input.defs) : Define(i)) \/ (\E i \in 1..Len(Input.items) : Add(i)) \/ Close
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Complete == path = <<>> /\ doc.ops \o doc.frags # <<>>
RECURSIVE Mirror(_)
Mirror(sels) == [i \in 1..Len(sels) |-> LET s == sels[Len(sels) + 1 - i] IN
                   IF s.k = "spr" THEN s ELSE [s EXCEPT !.sel = Mirror(s.sel)]]
RECURSIVE Wrap(_)
Bare(sel) == [k |-> "inl", id |-> 0, on |-> "", dirs |-> <<>>, sel |-> sel]
Wrap(sels) == << Bare([i \in 1..Len(sels) |-> IF sels[i].k = "spr" THEN sels[i] ELSE [sels[i] EXCEPT !.sel = IF sels[i].sel = <<>> THEN <<>> ELSE Wrap(sels[i].sel)]]) >>
Everywhere(d, F(_)) == [ops |-> [i \in 1..Len(d.ops) |-> [d.ops[i] EXCEPT !.sel = F(d.ops[i].sel)]],
                        frags |-> [i \in 1..Len(d.frags) |-> [d.frags[i] EXCEPT !.sel = F(d.frags[i].sel)]]]
Names == { doc.frags[i].name : i \in 1..Len(doc.frags) }
Sound == Cardinality(Names) = Len(doc.frags) /\ CyclicFragments(doc) = {}

(* fields merge or do not, whatever their order and however they are grouped *)
Merges(d) == MergeConflicts(S, d, TLCEval(Visits(S, d))) = {}
OrderIrrelevant == Complete /\ Sound => (Merges(doc) <=> Merges(Everywhere(doc, Mirror)))
GroupingIrrelevant == Complete /\ Sound => (Merges(doc) <=> Merges(Everywhere(doc, Wrap)))

(* what is said about fields and fragments does not depend on grouping either (identities aside) *)
Kinds(F) == { <<f.k, f.x>> : f \in F }
GroupingFields == Complete => Kinds(Fields(S, Visits(S, doc))) = Kinds(Fields(S, Visits(S, Everywhere(doc, Wrap))))
GroupingVariables == Complete => Kinds(Variables(S, doc, Visits(S, doc))) = Kinds(Variables(S, Everywhere(doc, Wrap), Visits(S, Everywhere(doc, Wrap))))

(* fragments on no cycle can be put in a line, each spreading only earlier ones *)
RECURSIVE Ranked(_, _)
Ranked(done, left) == IF left = {} THEN TRUE
  ELSE LET ready == { x \in left : { s.n : s \in SpreadsIn(FragByName(doc, x).sel) } \cap left = {} } IN
       ready # {} /\ Ranked(done \cup ready, left \ ready)
CyclesExact == Complete /\ Cardinality(Names) = Len(doc.frags) => (CyclicFragments(doc) = {} <=> Ranked({}, Names))
=============================================================================
