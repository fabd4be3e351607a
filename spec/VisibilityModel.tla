--------------------------- MODULE VisibilityModel ---------------------------
(* Reading a filtered schema in any order. A reader asks questions of a schema *)
(* with a lazily filled store: a definition is filtered the first time it is   *)
(* asked for or walked through, stored under its name, and taken from the      *)
(* store from then on. Every behaviour up to Depth reads is explored and       *)
(* printed, to be replayed into the real filtered schema.                      *)
EXTENDS Visibility, Json, IOUtils

CONSTANT Depth
Cases == ndJsonDeserialize(IOEnv.CASES)      \* [doc, hide, reads]
Hides(h) == [types |-> RangeOf(h.types), members |-> RangeOf(h.members), impls |-> RangeOf(h.impls), directives |-> RangeOf(h.directives)]

VARIABLES c, store, listed, hist, told
vars == <<c, store, listed, hist, told>>

D == Cases[c].doc
H == Hides(Cases[c].hide)

(* filtering one definition on demand, given only the original document *)
OnDemand(n) ==
  IF n \in H.types \/ n \notin Names(D.types) THEN <<>> ELSE << PType(D, H, Def(D.types, n)) >>
Get(st, n) == IF n \in DOMAIN st THEN st[n] ELSE OnDemand(n)
Put(st, ns) == [n \in DOMAIN st \cup ns |-> Get(st, n)]

(* the names a read of a definition walks through *)
Touches(n) == LET d == Get(store, n) IN
  IF d = <<>> THEN {n} ELSE {n} \cup { x[2] : x \in { y \in TypeRefs(D, d[1]) : y[1] = "type" } }

P0 == Prune(D, H)
FieldNamed(t, f) == SelectSeq(t.fields, LAMBDA x : x.name = f)

(* the answer to a read, from the store *)
Answer(st, lst, r) ==
  CASE r[1] = "type" -> LET d == Get(st, r[2]) IN IF d = <<>> THEN <<"null">> ELSE << "type", d[1].name, Len(d[1].fields), Len(d[1].values) >>
    [] r[1] = "contains" -> LET d == Get(st, r[2]) IN
         IF d = <<>> THEN <<"null">> ELSE << "bool", FieldNamed(d[1], r[3]) # <<>> >>
    [] r[1] = "members" -> LET d == Get(st, r[2]) IN
         IF d = <<>> THEN <<"null">> ELSE << "members", d[1].members >>
    [] r[1] = "impls" -> IF Get(st, r[2]) = <<>> THEN <<"null">>
         ELSE << "set", { o \in Names(D.types) : LET d == Get(st, o) IN d # <<>> /\ d[1].k = "object" /\ r[2] \in { d[1].ifaces[i].n : i \in 1..Len(d[1].ifaces) } } >>
    [] r[1] \in {"types", "all", "dirs"} -> << "set", lst >>
    [] OTHER -> << "opaque" >>

Lists == {"types", "all", "dirs", "print"}

Read(i) ==
  LET r == Cases[c].reads[i]
      ns == IF r[1] \in Lists THEN { x[2] : x \in { y \in listed : y[1] = "type" } }
            ELSE IF Len(r) > 1 /\ r[1] # "validate" THEN Touches(r[2]) ELSE {}
  IN /\ store' = Put(store, ns)
     /\ hist' = Append(hist, i)
     /\ told' = Append(told, Answer(store, { x[2] : x \in listed }, r))
     /\ UNCHANGED <<c, listed>>

Init == /\ c \in 1..Len(Cases) /\ store = << >> /\ hist = <<>> /\ told = <<>>
        /\ \E R \in { Reach(TLCEval(P0)) } : listed = R
Next == Len(hist) < Depth /\ \E i \in 1..Len(Cases[c].reads) : Read(i)
Spec == Init /\ [][Next]_vars

(* what is stored is what the pruned document has, and no answer depends on the reads before it *)
StoreSound == \A n \in DOMAIN store : store[n] = (IF n \in Names(P0.types) THEN << Def(P0.types, n) >> ELSE <<>>)
OrderFree == \A i \in 1..Len(hist) : told[i] = Answer(<< >>, { x[2] : x \in listed }, Cases[c].reads[hist[i]])
Emit == Len(hist) = Depth => PrintT(ToJson([c |-> c, h |-> hist]))
=============================================================================
