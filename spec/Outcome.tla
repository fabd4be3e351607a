------------------------------ MODULE Outcome ------------------------------
(* The life of one call of the parser on any text whatever: it is called,    *)
(* it answers with a document or with errors (never both, never neither),    *)
(* and errors can be shown, as a report and as a list with places that exist *)
(* in the text. Each line of the trace is one text with what was observed;   *)
(* a call that crashed or hung has no answer and stops the machine there.    *)
EXTENDS Unparse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, phase
vars == <<l, phase>>

Say(t, why) == PrintT(ToJson([line |-> t.line, ok |-> why = "", why |-> why, exp |-> <<>>, got |-> t.answer, toks |-> 0]))
(* the length of each line, counted up to where the next one starts *)
LineLengths(src) ==
  Of1({ Append(w.done, Len(src) + 1 - w.from) :
        w \in { FoldLeft(LAMBDA acc, k : IF EndsLine(src, k) THEN [from |-> k + 1, done |-> Append(acc.done, k - acc.from)] ELSE acc,
                         [from |-> 1, done |-> <<>>], [k \in 1..Len(src) |-> k]) } })
InText(lens, p) == p[1] \in 1..Len(lens) /\ p[2] \in 1..(lens[p[1]] + 1)

Answer(t) == /\ phase = "called"
             /\ CASE t.answer = "document" /\ t.errors = 0 -> phase' = "done"
                  [] t.answer = "errors" /\ t.errors > 0 -> phase' = "failed"
                  [] OTHER -> phase' = "stuck"
             /\ l' = l
(* every error is in the list (once per place it is about), and each place is one of the text's *)
Show(t) == /\ phase = "failed"
           /\ \E lens \in {TLCEval(LineLengths(t.src))} :
                phase' = IF t.report /\ t.listed >= t.errors /\ \A i \in 1..Len(t.places) : InText(lens, t.places[i])
                         THEN "done" ELSE "unshown"
           /\ l' = l
End(t) == /\ phase \in {"done", "stuck", "unshown"}
          /\ Say(t, IF phase = "done" THEN "" ELSE phase)
          /\ l' = l + 1 /\ phase' = "called"

Init == l = 1 /\ phase = "called"
Step == l <= Len(Trace) /\ \E t \in {Trace[l]} : Answer(t) \/ Show(t) \/ End(t)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
