---------------------------- MODULE SchemaTrace ----------------------------
(* Trace validation of building a schema and of the rules about it: each line *)
(* has a document and what the real code made of it.                          *)
EXTENDS Schema, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

CountIn(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : CountIn(a, x) = CountIn(b, x)

Reported(errs) == [i \in 1..Len(errs) |-> [k |-> errs[i].k, locs |-> RangeOf(errs[i].locs)]]
NoN(fs) == [i \in 1..Len(fs) |-> IF fs[i].k = "Circular" THEN [fs[i] EXCEPT !.n = 0] ELSE fs[i]]

Built(t, errs) ==
  IF errs # <<>> THEN t.stage = "build" /\ SameBag(TLCEval(Reported(t.errs)), errs)
  ELSE t.stage = "ok" /\ Shows(t.doc, { t.doc.types[i].name : i \in Live(t.doc) }, Names(t.doc.directives), t.dump)

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} : \E errs \in { TLCEval(BuildErrors(t.doc)) } :
     \E facts \in { IF errs = <<>> THEN TLCEval(Rules(t.doc)) ELSE <<>> } :
     LET ok == IF IOEnv.RULE = "build" THEN Built(t, errs) /\ t.n = Count(t.doc)
               ELSE (errs = <<>> /\ t.stage = "ok") => SameBag(TLCEval(NoN(t.rules)), facts)
     IN /\ rejected' = IF ok THEN rejected ELSE rejected + 1
        /\ PrintT(ToJson([line |-> t.line, ok |-> ok, errs |-> errs, facts |-> facts]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
