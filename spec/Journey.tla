------------------------------ MODULE Journey ------------------------------
(* The life of one parsed document against one built schema, whatever they   *)
(* are: it is validated; when validation reports errors they are rendered    *)
(* (as a report, and as a list with a message and places for each); and      *)
(* every analysis is asked for. An analysis answers with a value exactly     *)
(* when the request selects an operation, and otherwise says why not. A      *)
(* stage that crashed or hung has answered "nothing" and the machine stops   *)
(* there.                                                                    *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Analyses == {"depth", "cost", "relay", "both", "deprecated", "size", "vars"}

VARIABLES l, phase, left
vars == <<l, phase, left>>

(* the answer every analysis must give: the operation with the name asked for, or the only one *)
Selection(t) ==
  IF t.name # <<>>
  THEN IF t.name[1] # "" /\ \E i \in 1..Len(t.ops) : t.ops[i] = t.name[1] THEN "value" ELSE "NoOperation " \o t.name[1]
  ELSE IF Len(t.ops) = 1 THEN "value" ELSE "Anonymous"

Validate(t) == /\ phase = "parsed"
               /\ phase' = CASE t.validate = "valid" /\ t.errors = 0 -> "validated"
                             [] t.validate = "invalid" /\ t.errors > 0 -> "invalid"
                             [] OTHER -> "stuck in validation"
               /\ UNCHANGED <<l, left>>
Render(t) == /\ phase = "invalid"
             /\ phase' = IF t.report /\ t.listed >= t.errors /\ t.messages THEN "validated" ELSE "stuck in rendering"
             /\ UNCHANGED <<l, left>>
(* the analyses are independent: any order will do, one is enough *)
Analyse(t) == /\ phase = "validated" /\ left # {}
              /\ LET a == CHOOSE x \in left : TRUE IN
                 IF t.analyses[a] = Selection(t)
                 THEN left' = left \ {a} /\ phase' = phase
                 ELSE left' = left /\ phase' = "stuck in " \o a
              /\ l' = l
Done(t) == phase = "validated" /\ left = {}
Stuck == phase \notin {"parsed", "invalid", "validated"}
End(t) == /\ Done(t) \/ Stuck
          /\ Stuck => PrintT(ToJson([line |-> t.line, why |-> phase, want |-> Selection(t)]))
          /\ l' = l + 1 /\ phase' = "parsed" /\ left' = Analyses

Init == l = 1 /\ phase = "parsed" /\ left = Analyses
Step == l <= Len(Trace) /\ \E t \in {Trace[l]} : Validate(t) \/ Render(t) \/ Analyse(t) \/ End(t)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
