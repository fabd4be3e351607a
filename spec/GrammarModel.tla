--------------------------- MODULE GrammarModel ---------------------------
(* The pushdown machine of the grammar explored by itself: every stack it    *)
(* reaches within a bound on its height, and every token after it. Each      *)
(* transition gives a text: the tokens that led to the stack, the token, and *)
(* the shortest way to end the document from there (for a token that is      *)
(* refused: the shortest way to end it without that token). The real parser  *)
(* must answer each as the machine does.                                     *)
EXTENDS Grammar, Json, IOUtils

Mode == IOEnv.MODE
MaxHeight == atoi(IOEnv.HEIGHT)

T(k, x) == [k |-> k, x |-> x]
Alphabet ==
  [i \in 1..12 |-> T("p", <<"!", "(", ")", "...", ":", "=", "@", "[", "]", "{", "}", "|">>[i])]
  \o << T("name", "a"), T("name", "on"), T("name", "true"), T("int", "1"), T("str", "\"s\""), T("var", "$v") >>
  \o (IF Mode = "exec" THEN << T("name", "fragment"), T("name", "query"), T("name", "null"), T("float", "1.5"), T("p", "&") >>
      ELSE << T("p", "&"), T("name", "schema"), T("name", "scalar"), T("name", "type"), T("name", "interface"), T("name", "union"), T("name", "enum"),
              T("name", "input"), T("name", "directive"), T("name", "implements"), T("name", "repeatable"), T("name", "query"), T("name", "FIELD") >>)

(* a token every document that goes on with the nonterminal can start with *)
Canonical ==
  ("Exec" :> T("p", "{")) @@ ("ExecDef" :> T("p", "{")) @@ ("SelSet" :> T("p", "{")) @@ ("Sel" :> T("name", "b")) @@ ("Spread" :> T("name", "c"))
  @@ ("VarDef" :> T("var", "$w")) @@ ("Type" :> T("name", "T")) @@ ("Arg" :> T("name", "x")) @@ ("CArg" :> T("name", "x"))
  @@ ("Value" :> T("int", "2")) @@ ("CValue" :> T("int", "2"))
  @@ ("SDL" :> T("name", "scalar")) @@ ("Def" :> T("name", "scalar")) @@ ("RootDef" :> T("name", "query")) @@ ("FieldDef" :> T("name", "f"))
  @@ ("InputVal" :> T("name", "i")) @@ ("EnumVal" :> T("name", "V"))
Word(a) == CASE a = "Name" -> T("name", "N") [] a = "FragName" -> T("name", "F") [] a = "Var" -> T("var", "$z") [] a = "Scalar" -> T("int", "3")
             [] a = "Str" -> T("str", "\"d\"") [] a = "EnumName" -> T("name", "E") [] a = "Loc" -> T("name", "FIELD") [] a = "OpType" -> T("name", "query")
             [] a = "kw:on" -> T("name", "on") [] OTHER -> T("p", a)

(* the words some rule of the grammar tells from other names, and some that are nearly those *)
Words == (IF Mode = "exec" THEN {} ELSE DirectiveLocations \cup {"extend", "objects", "Field", "INPUT"})
         \cup {"true", "false", "null", "on", "fragment", "query", "mutation", "subscription", "Query", "queries", "True", "nul", "ON"}
Other == T("name", "zz")
(* the stacks on which some word is answered otherwise than a name without meaning *)
Sensitive(st) == \E w \in Words : Feed(st, T("name", w)) # Feed(st, Other)

EndTok == T("eof", "")
RECURSIVE Complete(_)
Complete(st) ==
  IF st = <<>> \/ st = <<"eof">> THEN <<>>
  ELSE IF st[1] = "CVar" THEN Assert(FALSE, st)
  ELSE IF st[1] \in Terminals THEN <<Word(st[1])>> \o Complete(Tail(st))
  ELSE IF st[1] \in DOMAIN Canonical THEN <<Canonical[st[1]]>> \o Complete(Feed(st, Canonical[st[1]]))
  ELSE Complete(Expand(st[1], EndTok) \o Tail(st))

VARIABLES stack, path
vars == <<stack, path>>

Emit(toks, ok) == PrintT(ToJson([toks |-> [i \in 1..Len(toks) |-> toks[i].x], ok |-> ok]))

Init == stack = Start(Mode) /\ path = <<>>
Try(t, grow) ==
  \E st \in { TLCEval(Feed(stack, t)) } :
    IF st = Reject THEN /\ Emit(path \o <<t>> \o Complete(stack), FALSE)       \* an extra token
                        /\ Emit(path \o <<t>> \o Complete(Tail(stack)), FALSE) \* a token in place of what was due
                        /\ UNCHANGED vars
    ELSE /\ Emit(path \o <<t>> \o Complete(st), TRUE)
         /\ IF grow THEN stack' = st /\ path' = Append(path, t) ELSE UNCHANGED vars
Next ==
  \/ \E i \in 1..Len(Alphabet) : Try(Alphabet[i], TRUE)
  \/ Sensitive(stack) /\ \E w \in Words : Try(T("name", w), FALSE)
Spec == Init /\ [][Next]_vars
View == stack
Bound == Len(stack) <= MaxHeight

(* every reachable stack can be emptied, and ends exactly with the document; the completion is what the machine reads *)
Productive == Len(stack) >= 1 /\ stack[Len(stack)] = "eof"
CanEnd == FoldLeft(LAMBDA s, t : IF s = Reject THEN s ELSE Feed(s, t), stack, Complete(stack) \o <<EndTok>>) = <<>>
NeverCVar == stack[1] # "CVar"
=============================================================================
