--------------------------- MODULE CompareTrace ---------------------------
(* Trace validation of schema comparison: each line has two schemas, the     *)
(* changes reported forward and backward, those of each schema with itself,  *)
(* and how documents valid before fare afterwards.                           *)
EXTENDS Compare, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

NoCrit(s) == [i \in 1..Len(s) |-> [k |-> s[i].k, path |-> s[i].path, on |-> s[i].on, a |-> s[i].a, b |-> s[i].b, v |-> s[i].v]]
KeyCrit(s) == [i \in 1..Len(s) |-> <<s[i].k, s[i].path, s[i].on, s[i].a, s[i].b, s[i].crit>>]
Ordered(s) == \A i, j \in 1..Len(s) : i < j => Level(s[i].crit) <= Level(s[j].crit)

DiffOK(D, E, t) ==
  /\ SameBag(NoCrit(D), NoCrit(t.fwd)) /\ SameBag(NoCrit(E), NoCrit(t.bwd))
  /\ t.same = 0

(* kinds of facts a safe change may bring: fields that no longer merge because only one of them became non-null *)
Tolerated == {"MergeTypes"}
DocsOK(t) ==
  (\A i \in 1..Len(t.fwd) : t.fwd[i].crit # "breaking") =>
    \A i \in 1..Len(t.docs) : t.docs[i].old = 0 => \A j \in 1..Len(t.docs[i].new) : t.docs[i].new[j] \in Tolerated

CritOK(D, E, t) ==
  /\ SameBag(KeyCrit(D), KeyCrit(t.fwd)) /\ SameBag(KeyCrit(E), KeyCrit(t.bwd))
  /\ Ordered(t.fwd) /\ Ordered(t.bwd)
  /\ t.flags
  /\ DocsOK(t)

Missing(a, b) == { x \in RangeOf(a) : CountOf(b, x) # CountOf(a, x) }

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E D \in { TLCEval(Diff(t.old, t.new)) } : \E E \in { TLCEval(Diff(t.new, t.old)) } :
     LET ok == IF IOEnv.RULE = "diff" THEN DiffOK(D, E, t) ELSE CritOK(D, E, t)
     IN /\ rejected' = IF ok THEN rejected ELSE rejected + 1
        /\ PrintT(ToJson([line |-> t.line, ok |-> ok, n |-> Len(D),
              missing |-> IF ok THEN {} ELSE Missing(KeyCrit(D), KeyCrit(t.fwd)) \cup Missing(KeyCrit(E), KeyCrit(t.bwd)),
              extra |-> IF ok THEN {} ELSE Missing(KeyCrit(t.fwd), KeyCrit(D)) \cup Missing(KeyCrit(t.bwd), KeyCrit(E)),
              docs |-> DocsOK(t)]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
