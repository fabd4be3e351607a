--------------------------- MODULE AnalysisModel ---------------------------
(* The analyses on every document of a theme (DocModel's machine), under     *)
(* every assignment of the given variables. What they say must not depend on *)
(* the order of selections or on how they are grouped; an operation costs at *)
(* least its depth, and at least what any execution of it costs; skipping    *)
(* everything leaves nothing.                                                *)
EXTENDS DocModel, Analysis

Givens == RangeOf(Input.given)
At1(d, i) == d.ops[i]
Ev(d, i, g) == OpEvents(S, d, At1(d, i), g)
Same(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) :
                Cardinality({ i \in 1..Len(a) : a[i] = x }) = Cardinality({ i \in 1..Len(b) : b[i] = x })
Fit == Complete /\ Sound
Forms == { TLCEval(Everywhere(doc, Mirror)), TLCEval(Everywhere(doc, Wrap)) }
Requests == { <<i, g>> : i \in 1..Len(doc.ops), g \in Givens }

DepthForms == Fit => \A q \in Requests : \A x \in { Depth(Ev(doc, q[1], q[2])) } : \A d \in Forms : Depth(Ev(d, q[1], q[2])) = x
SizeForms == Fit => \A q \in Requests : \A x \in { TLCEval(Sizes(Ev(doc, q[1], q[2]), At1(doc, q[1]), q[2], 1)) } :
                      \A d \in Forms : Same(x, TLCEval(Sizes(Ev(d, q[1], q[2]), At1(d, q[1]), q[2], 1)))
DeprecatedForms == Fit => \A q \in Requests : \A x \in { TLCEval(Deprecated(S, Ev(doc, q[1], q[2]), At1(doc, q[1]), q[2])) } :
                      \A d \in Forms : Same(x, TLCEval(Deprecated(S, Ev(d, q[1], q[2]), At1(d, q[1]), q[2])))
CostOf2(d, q, kind, how) == Cost(S, d, At1(d, q[1]), q[2], kind, how)
(* a condition that no object can satisfy makes its contents free, and may stand between fields that are charged *)
RECURSIVE Satisfiable(_, _, _)
Satisfiable(sels, scope, on) ==
  \A i \in 1..Len(sels) : LET s == sels[i] IN
    CASE s.k = "field" -> s.sel = <<>> \/ (HasField(S, scope, s.name) /\ Satisfiable(s.sel, BaseName(FieldDef(S, scope, s.name).type), Possible(S, BaseName(FieldDef(S, scope, s.name).type))))
      [] s.k = "inl" -> LET c == IF s.on = "" THEN scope ELSE s.on IN on \cap Possible(S, c) # {} /\ Satisfiable(s.sel, c, on \cap Possible(S, c))
      [] s.k = "spr" -> TRUE
Plain == \A i \in 1..Len(doc.ops) : Satisfiable(doc.ops[i].sel, RootName(S, doc.ops[i].op), Possible(S, RootName(S, doc.ops[i].op)))
CostForms == Fit /\ Merges(doc) =>
  \A q \in Requests :
    /\ \A kind \in {"unit", "relay"} : \A x \in { CostOf2(doc, q, kind, "scope") } :
         /\ \A d \in Forms : CostOf2(d, q, kind, "scope") = x
         /\ CostOf2(doc, q, kind, "exec") <= x
    /\ doc.frags = <<>> /\ Plain => CostOf2(doc, q, "unit", "scope") >= Depth(Ev(doc, q[1], q[2]))
=============================================================================
