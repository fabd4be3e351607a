-------------------------- MODULE TypegenSchemaTrace --------------------------
(* Trace validation of the macro on the module it is put on: the schema must *)
(* build and keep the rules, every custom scalar must have exactly a plain   *)
(* alias, other aliases are refused, every other item must be a module with  *)
(* one query attribute, and the options must make sense.                     *)
(* A line: [doc (Schema), aliases |-> [name, lives, types], borrow, codec,   *)
(* opts (are the options well formed), items |-> kinds of further items,     *)
(* pascal (names in Rust), got (kinds of errors)]                            *)
EXTENDS Schema, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

Scalars(t) == { t.pascal[t.doc.types[i].name] : i \in { j \in Live(t.doc) : t.doc.types[j].k = "scalar" } }
BadSchema(t) == LET e == BuildErrors(t.doc) IN IF e # <<>> THEN TRUE ELSE Rules(t.doc) # <<>>
BadAlias(t, a) == a.types > 0 \/ a.lives > (IF t.borrow THEN 1 ELSE 0) \/ a.name \notin Scalars(t)
BadUsage(t) ==
  \/ ~t.opts
  \/ t.borrow /\ t.codec = "miniserde"
  \/ \E i \in 1..Len(t.aliases) : BadAlias(t, t.aliases[i])
  \/ Scalars(t) # { t.aliases[i].name : i \in 1..Len(t.aliases) }
  \/ \E i \in 1..Len(t.items) : t.items[i] # "query"
Reasons(t) == IF ~t.opts THEN {"Usage"} ELSE (IF BadSchema(t) THEN {"Invalid"} ELSE {}) \cup (IF BadUsage(t) THEN {"Usage"} ELSE {})

RangeEq(got, why) == IF why = {} THEN got = <<>> ELSE got # <<>> /\ RangeOf(got) \subseteq why
Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} : \E why \in { TLCEval(Reasons(t)) } :
     /\ rejected' = IF RangeEq(t.got, why) THEN rejected ELSE rejected + 1
     /\ PrintT(ToJson([line |-> t.line, ok |-> RangeEq(t.got, why), why |-> why]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
