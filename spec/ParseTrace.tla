---------------------------- MODULE ParseTrace ----------------------------
(* Trace validation of parsing. Each line is a text given to the real parser *)
(* with what it answered: the tree with the places of its constructs, or     *)
(* where its first error is. The machine reads the text token by token with  *)
(* the lexical grammar and the pushdown machine, one token per step, and     *)
(* compares the answer when the text ends or no document continues.          *)
EXTENDS Unparse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, stack, toks, starts
vars == <<l, stack, toks, starts>>

(* tokens of the definition that starts at token as[i] (the last one ends with the text) *)
Chunks(ts, as) == [i \in 1..Len(as) |-> Map(Sym, SubSeq(ts, as[i], IF i = Len(as) THEN Len(ts) ELSE as[i + 1] - 1))]
IsFragment(c) == c[1] = <<"name", "fragment", <<>>>>

(* executable: the operations in order, then the fragments in order *)
ExecFaithful(cs, doc) ==
  /\ Map(Symbols, Map(UOp, doc.ops)) = SelectSeq(cs, LAMBDA c : ~IsFragment(c))
  /\ Map(Symbols, Map(UFrag, doc.frags)) = SelectSeq(cs, IsFragment)

IsSchemaDef(c) == <<"name", "schema", <<>>>> = IF c[1][1] = "str" THEN c[2] ELSE c[1]
SDLFaithful(cs, defs) ==
  LET rest == SelectSeq(cs, LAMBDA c : ~IsSchemaDef(c))
      mine == Map(Solid, rest)
      theirs == Map(LAMBDA t : Symbols(UTypeDef(t)), defs.types) \o Map(LAMBDA d : Symbols(UDirDef(d)), defs.directives)
  IN /\ \A i \in 1..Len(cs) : IsSchemaDef(cs[i]) => Solid(cs[i]) \in { Symbols(x) : x \in USchemas(defs) }
     /\ Len(mine) = Len(theirs)
     /\ { mine[i] : i \in 1..Len(mine) } = { theirs[i] : i \in 1..Len(theirs) }

(* Printing: the text of the printer denotes the document it was given (shorthand operations written in full),
   reading it again gives that document, and printing that gives the same text *)
Full(doc) == [ops |-> Map(LAMBDA o : IF o.short THEN Longhand(o) ELSE o, doc.ops), frags |-> doc.frags]
Reprint(t, same) == IF ~t.again[1].ok THEN "unreadable" ELSE IF ~same THEN "changed" ELSE IF ~t.again[1].stable THEN "unstable" ELSE ""
PrintedDoc(t, cs) ==
  IF ~ExecFaithful(cs, Full(t.ast[1])) THEN "printed"
  ELSE Reprint(t, t.again[1].ok => Map(Symbols, UExecDefs(t.again[1].doc[1])) = Map(Symbols, UExecDefs(Full(t.ast[1]))))

(* a schema without a schema definition has the object types of the usual names as roots *)
Usual(defs, n) == IF \E i \in 1..Len(defs.types) : defs.types[i].name = n /\ defs.types[i].k = "object" THEN n ELSE ""
Implicit(cs, defs) == (\A i \in 1..Len(cs) : ~IsSchemaDef(cs[i])) =>
  /\ defs.desc = <<>> /\ defs.dirs = <<>> /\ defs.query = "Query"
  /\ defs.mutation = Usual(defs, "Mutation") /\ defs.subscription = Usual(defs, "Subscription")
PrintedSchema(t, cs) ==
  IF ~SDLFaithful(cs, t.ast[1]) THEN "printed" ELSE IF ~Implicit(cs, t.ast[1]) THEN "roots"
  ELSE Reprint(t, t.again[1].ok => t.again[1].doc[1] = t.ast[1])

(* the places of the constructs of the definitions, in the order of the text; a tree's definitions are
   numbered in that order by t.order: 1.. for operations, then fragments *)
InOrder(t, cs) == LET defs == UExecDefs(t.ast[1])
                      nops == Len(t.ast[1].ops)
                  IN FoldLeft(LAMBDA acc, c : IF IsFragment(c) THEN [acc EXCEPT !.f = acc.f + 1, !.out = acc.out \o defs[acc.f]]
                                              ELSE [acc EXCEPT !.o = acc.o + 1, !.out = acc.out \o defs[acc.o]],
                              [o |-> 1, f |-> nops + 1, out |-> <<>>], cs).out
(* (only asked of faithful trees) *)
Unreported == {"inlineon", "vartype"}     (* part of other constructs, no place of their own *)
Expected(t, ts, cs) == { <<p[1], ts[p[2]].s, ts[p[3]].e>> : p \in { q \in Places(InOrder(t, cs), 0) : q[1] \notin Unreported } }
Observed(t) == { <<t.spans[i].k, t.spans[i].a, t.spans[i].b>> : i \in 1..Len(t.spans) }

(* Errors of validation: each is reported exactly where the constructs it is about start *)
Kind(f, marks) ==
  CASE f.k = "DuplicateOperation" -> "opname"
    [] f.k \in {"LoneAnonymous", "SubscriptionRoot", "LeafSelection"} -> "selset"
    [] f.k = "OperationType" -> "optype"
    [] f.k \in {"UnknownField", "NoSelection"} -> "fieldname"
    [] f.k \in {"DuplicateFragment", "UnusedFragment"} -> "fragname"
    [] f.k \in {"UnknownTypeCondition", "NotComposite"} -> IF \E m \in marks : m[1] = "fragon" /\ m[4] = f.id THEN "fragon" ELSE "inlineon"
    [] f.k \in {"UnknownFragment", "FragmentCycle"} -> "spreadname"
    [] f.k = "ImpossibleSpread" -> IF \E m \in marks : m[1] = "spreadname" /\ m[4] = f.id THEN "spreadname" ELSE "inline"
    [] f.k \in {"DuplicateVariable", "UnusedVariable"} -> "varname"
    [] f.k = "VariableNotInput" -> "vartype"
    [] f.k \in {"UndefinedVariable", "VariableUsage"} -> "value"
    [] f.k \in {"UnknownArgument", "DuplicateArgument"} -> "argname"
    [] f.k = "MissingArgument" -> IF \E m \in marks : m[1] = "dir" /\ m[4] = f.id THEN "dir" ELSE "fieldname"
    [] f.k = "UnknownDirective" -> "dirname"
    [] f.k \in {"DirectiveLocation", "DuplicateDirective"} -> "dir"
    [] f.k = "ValueUnknownField" -> "key"
    [] OTHER -> "value"
Starts(t, ts, S) == { LineCol(t.src, ts[m[2]].s) : m \in S }
AtAll(ls) == { ls[i] : i \in 1..Len(ls) }
(* a repeated field of an input object is reported at each of its entries; fields that do not merge, at the selections they are in *)
WellPlaced(t, ts, marks, e) ==
  CASE \E i \in 1..Len(e.facts) : e.facts[i].k \in {"MergeTypes", "MergeNames", "MergeArgs"} ->
         e.locs # <<>> /\ AtAll(e.locs) \subseteq Starts(t, ts, { m \in marks : m[1] = "selset" })
    [] \E i \in 1..Len(e.facts) : e.facts[i].k = "ValueDuplicateField" ->
         \E i \in {1} : LET obj == CHOOSE m \in marks : m[1] = "value" /\ m[4] = e.facts[i].id
                        IN AtAll(e.locs) = Starts(t, ts, { m \in marks : /\ m[1] = "key" /\ m[2] > obj[2] /\ m[2] < obj[3]
                                                                         /\ ts[m[2]].x = e.facts[i].x
                                                                         /\ ~\E o \in marks : o[1] = "value" /\ o[2] > obj[2] /\ o[2] <= m[2] /\ o[3] >= m[2] })
    [] OTHER -> AtAll(e.locs) = UNION { Starts(t, ts, { m \in marks : m[1] = Kind(e.facts[i], marks) /\ m[4] = e.facts[i].id }) : i \in 1..Len(e.facts) }

Say(t, why, exp, got) ==
  PrintT(ToJson([line |-> t.line, ok |-> why = "", why |-> why, exp |-> exp, got |-> got, toks |-> Len(toks)]))

(* the text is a document *)
Accepted(t, ts, cs) ==
  IF ~t.ok THEN Say(t, "rejected", <<>>, t.at)
  ELSE IF IOEnv.RULE = "places" THEN
    IF t.spans = <<>> \/ ~ExecFaithful(cs, t.ast[1]) THEN Say(t, "", <<>>, <<>>)
    ELSE \E e \in {TLCEval(Expected(t, ts, cs))} : \E o \in {TLCEval(Observed(t))} :
           Say(t, IF e = o /\ Cardinality(o) = Len(t.spans) THEN "" ELSE "places", e \ o, o \ e)
  ELSE IF IOEnv.RULE = "errors" THEN
    IF ~ExecFaithful(cs, t.ast[1]) THEN Say(t, "", <<>>, <<>>)
    ELSE \E marks \in {TLCEval(Places(InOrder(t, cs), 0))} :
         \E wrong \in { { i \in 1..Len(t.errs) : ~WellPlaced(t, ts, marks, t.errs[i]) } } :
           Say(t, IF wrong = {} THEN "" ELSE "errors", {}, { t.errs[i] : i \in wrong })
  ELSE IF IOEnv.RULE = "print" THEN Say(t, IF t.mode = "exec" THEN PrintedDoc(t, cs) ELSE PrintedSchema(t, cs), <<>>, <<>>)
  ELSE IF t.mode = "exec" THEN Say(t, IF ExecFaithful(cs, t.ast[1]) THEN "" ELSE "tree", <<>>, <<>>)
  ELSE IF t.ast = <<>> THEN Say(t, IF t.n = Len(cs) THEN "" ELSE "count", Len(cs), t.n)
  ELSE Say(t, IF t.n # Len(cs) THEN "count" ELSE IF SDLFaithful(cs, t.ast[1]) THEN "" ELSE "tree", <<>>, <<>>)

(* it is not: no document continues with tok, or tok is a lexical error, or a later token is; lexical errors come first.
   An error at the end of input may be reported anywhere from the last token on; one right after a description may be
   reported at the description *)
Rejected(t, tok) ==
  IF t.ok THEN Say(t, "accepted", tok.k, tok.s)
  ELSE IF IOEnv.RULE # "places" THEN Say(t, "", <<>>, <<>>)
  ELSE \E ends \in { IF tok.k \in {"err", "eof"} THEN <<tok>> ELSE Lex(SubSeq(t.src, tok.e, Len(t.src)), t.nums, t.ruby) } :
       \E last \in { ends[Len(ends)] } :
       \E at \in { IF tok.k = "err" THEN {LineCol(t.src, tok.s)}
                   ELSE IF last.k = "err" THEN {LineCol(t.src, last.s + tok.e - 1)}
                   ELSE IF tok.k = "eof" THEN (IF toks = <<>> THEN {<<>>} ELSE {}) \cup { LineCol(t.src, i) : i \in (IF toks = <<>> THEN 1 ELSE toks[Len(toks)].s)..(Len(t.src) + 1) }
                   ELSE {LineCol(t.src, tok.s)} \cup
                        (IF stack[1] = "Def" /\ toks # <<>> /\ toks[Len(toks)].k = "str" THEN {LineCol(t.src, toks[Len(toks)].s)} ELSE {}) } :
         Say(t, IF t.at \in at THEN "" ELSE "where", at, t.at)

Next1(t) == /\ l' = l + 1 /\ toks' = <<>> /\ starts' = <<>>
            /\ stack' = IF l < Len(Trace) THEN Start(Trace[l + 1].mode) ELSE <<>>

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E tok \in { NextTok(t.src, IF toks = <<>> THEN 1 ELSE toks[Len(toks)].e, t.nums, t.ruby) } :
     \E st \in { IF tok.k = "err" THEN Reject ELSE Feed(stack, tok) } :
       IF st = Reject THEN Rejected(t, tok) /\ Next1(t)
       ELSE IF tok.k = "eof" THEN Accepted(t, toks, Chunks(toks, starts)) /\ Next1(t)
       ELSE /\ toks' = Append(toks, tok)
            /\ starts' = IF StartsDef(stack, tok) THEN Append(starts, Len(toks) + 1) ELSE starts
            /\ stack' = st
            /\ l' = l

Init == l = 1 /\ toks = <<>> /\ starts = <<>> /\ stack = IF Len(Trace) = 0 THEN <<>> ELSE Start(Trace[1].mode)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
