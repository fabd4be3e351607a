------------------------------ MODULE Grammar ------------------------------
(* The GraphQL grammar of executable documents and of type system documents  *)
(* as a deterministic pushdown machine: Feed(stack, token) is the stack      *)
(* after the token, or Reject when no document continues with it. A document *)
(* is accepted when the end of input empties the stack.                      *)
EXTENDS Lexer

Reject == <<"reject">>
IsP(t, x) == t.k = "p" /\ t.x = x
IsW(t, words) == t.k = "name" /\ t.x \in words

OpTypes == {"query", "mutation", "subscription"}
DirectiveLocations == {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT",
  "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM",
  "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"}

(* terminals: a punctuator stands for itself, "kw:.." for one name, the others for a class *)
Keyword == ("kw:on" :> "on") @@ ("kw:fragment" :> "fragment")
Terminals == {"!", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "|", "}", "kw:on", "Name", "FragName", "Var", "CVar", "Scalar",
              "Str", "EnumName", "Loc", "OpType", "eof"}
Matches(a, t) ==
  CASE a \in {"Name"} -> t.k = "name"
    [] a = "kw:on" -> IsW(t, {"on"})
    [] a = "FragName" -> t.k = "name" /\ t.x # "on"
    [] a = "EnumName" -> t.k = "name" /\ t.x \notin {"true", "false", "null"}
    [] a = "Loc" -> IsW(t, DirectiveLocations)
    [] a = "OpType" -> IsW(t, OpTypes)
    [] a = "Var" -> t.k = "var"
    [] a = "CVar" -> FALSE                                    \* a variable where only constants may stand
    [] a = "Scalar" -> t.k \in {"int", "float", "str", "name"}
    [] a = "Str" -> t.k = "str"
    [] a = "eof" -> t.k = "eof"
    [] OTHER -> IsP(t, a)

When(c, rhs) == IF c THEN rhs ELSE <<>>
ValueStart(t) == t.k \in {"var", "int", "float", "str", "name"} \/ IsP(t, "[") \/ IsP(t, "{")
ValueRhs(t, const) ==
  IF IsP(t, "[") THEN <<"[", IF const THEN "CItems" ELSE "Items", "]">>
  ELSE IF IsP(t, "{") THEN <<"{", IF const THEN "CKeys" ELSE "Keys", "}">>
  ELSE IF t.k = "var" THEN <<IF const THEN "CVar" ELSE "Var">>
  ELSE <<"Scalar">>
DirsRhs(t, const) == When(IsP(t, "@"), <<"@", "Name", IF const THEN "CArgs?" ELSE "Args?", IF const THEN "CDirs" ELSE "Dirs">>)

(* the expansion of nonterminal a when the next token is t *)
Expand(a, t) ==
  CASE
  (* executable documents *)
       a = "Exec" -> <<"ExecDef", "Exec*">>
    [] a = "Exec*" -> When(t.k # "eof", <<"ExecDef", "Exec*">>)
    [] a = "ExecDef" -> IF IsP(t, "{") THEN <<"SelSet">>
                        ELSE IF IsW(t, OpTypes) THEN <<"OpType", "OpName?", "Vars?", "Dirs", "SelSet">>
                        ELSE IF IsW(t, {"fragment"}) THEN <<"Name", "FragName", "kw:on", "Name", "Dirs", "SelSet">>
                        ELSE Reject
    [] a = "OpName?" -> When(t.k = "name", <<"Name">>)
    [] a = "Vars?" -> When(IsP(t, "("), <<"(", "VarDef", "VarDef*", ")">>)
    [] a = "VarDef*" -> When(t.k = "var", <<"VarDef", "VarDef*">>)
    [] a = "VarDef" -> <<"Var", ":", "Type", "Default?", "CDirs">>
    [] a = "Type" -> IF IsP(t, "[") THEN <<"[", "Type", "]", "Bang?">> ELSE <<"Name", "Bang?">>
    [] a = "Bang?" -> When(IsP(t, "!"), <<"!">>)
    [] a = "Default?" -> When(IsP(t, "="), <<"=", "CValue">>)
    [] a = "SelSet" -> <<"{", "Sel", "Sel*", "}">>
    [] a = "Sel*" -> When(t.k = "name" \/ IsP(t, "..."), <<"Sel", "Sel*">>)
    [] a = "Sel" -> IF IsP(t, "...") THEN <<"...", "Spread">> ELSE <<"Name", "Alias?", "Args?", "Dirs", "SelSet?">>
    [] a = "Alias?" -> When(IsP(t, ":"), <<":", "Name">>)
    [] a = "SelSet?" -> When(IsP(t, "{"), <<"SelSet">>)
    [] a = "Spread" -> IF IsW(t, {"on"}) THEN <<"kw:on", "Name", "Dirs", "SelSet">>
                       ELSE IF t.k = "name" THEN <<"FragName", "Dirs">>
                       ELSE <<"Dirs", "SelSet">>
  (* shared *)
    [] a = "Args?" -> When(IsP(t, "("), <<"(", "Arg", "Arg*", ")">>)
    [] a = "Arg*" -> When(t.k = "name", <<"Arg", "Arg*">>)
    [] a = "Arg" -> <<"Name", ":", "Value">>
    [] a = "CArgs?" -> When(IsP(t, "("), <<"(", "CArg", "CArg*", ")">>)
    [] a = "CArg*" -> When(t.k = "name", <<"CArg", "CArg*">>)
    [] a = "CArg" -> <<"Name", ":", "CValue">>
    [] a = "Dirs" -> DirsRhs(t, FALSE)
    [] a = "CDirs" -> DirsRhs(t, TRUE)
    [] a = "Value" -> ValueRhs(t, FALSE)
    [] a = "CValue" -> ValueRhs(t, TRUE)
    [] a = "Items" -> When(ValueStart(t), <<"Value", "Items">>)
    [] a = "CItems" -> When(ValueStart(t), <<"CValue", "CItems">>)
    [] a = "Keys" -> When(t.k = "name", <<"Name", ":", "Value", "Keys">>)
    [] a = "CKeys" -> When(t.k = "name", <<"Name", ":", "CValue", "CKeys">>)
  (* type system documents *)
    [] a = "SDL" -> <<"Desc?", "Def", "SDL*">>
    [] a = "SDL*" -> When(t.k # "eof", <<"Desc?", "Def", "SDL*">>)
    [] a = "Desc?" -> When(t.k = "str", <<"Str">>)
    [] a = "Def" ->
         IF t.k # "name" THEN Reject
         ELSE CASE t.x = "schema" -> <<"Name", "CDirs", "{", "RootDef", "RootDef*", "}">>
                [] t.x = "scalar" -> <<"Name", "Name", "CDirs">>
                [] t.x \in {"type", "interface"} -> <<"Name", "Name", "Implements?", "CDirs", "{", "FieldDef", "FieldDef*", "}">>
                [] t.x = "union" -> <<"Name", "Name", "CDirs", "=", "Pipe?", "Name", "PipeName*">>
                [] t.x = "enum" -> <<"Name", "Name", "CDirs", "{", "EnumVal", "EnumVal*", "}">>
                [] t.x = "input" -> <<"Name", "Name", "CDirs", "{", "InputVal", "InputVal*", "}">>
                [] t.x = "directive" -> <<"Name", "@", "Name", "ArgDefs?", "Repeatable?", "kw:on", "Pipe?", "Loc", "PipeLoc*">>
                [] OTHER -> Reject
    [] a = "RootDef*" -> When(t.k = "name", <<"RootDef", "RootDef*">>)
    [] a = "RootDef" -> <<"OpType", ":", "Name">>
    [] a = "Implements?" -> When(IsW(t, {"implements"}), <<"Name", "Amp?", "Name", "AmpName*">>)
    [] a = "Amp?" -> When(IsP(t, "&"), <<"&">>)
    [] a = "AmpName*" -> When(IsP(t, "&"), <<"&", "Name", "AmpName*">>)
    [] a = "Pipe?" -> When(IsP(t, "|"), <<"|">>)
    [] a = "PipeName*" -> When(IsP(t, "|"), <<"|", "Name", "PipeName*">>)
    [] a = "PipeLoc*" -> When(IsP(t, "|"), <<"|", "Loc", "PipeLoc*">>)
    [] a = "Repeatable?" -> When(IsW(t, {"repeatable"}), <<"Name">>)
    [] a = "FieldDef*" -> When(t.k \in {"str", "name"}, <<"FieldDef", "FieldDef*">>)
    [] a = "FieldDef" -> <<"Desc?", "Name", "ArgDefs?", ":", "Type", "CDirs">>
    [] a = "ArgDefs?" -> When(IsP(t, "("), <<"(", "InputVal", "InputVal*", ")">>)
    [] a = "InputVal*" -> When(t.k \in {"str", "name"}, <<"InputVal", "InputVal*">>)
    [] a = "InputVal" -> <<"Desc?", "Name", ":", "Type", "Default?", "CDirs">>
    [] a = "EnumVal*" -> When(t.k \in {"str", "name"}, <<"EnumVal", "EnumVal*">>)
    [] a = "EnumVal" -> <<"Desc?", "EnumName", "CDirs">>

RECURSIVE Feed(_, _)
Feed(stack, t) ==
  IF stack = <<>> THEN Reject
  ELSE IF stack[1] \in Terminals THEN IF Matches(stack[1], t) THEN Tail(stack) ELSE Reject
  ELSE Of1({ IF rhs = Reject THEN Reject ELSE Of1({ Feed(st, t) : st \in { rhs \o Tail(stack) } }) : rhs \in { Expand(stack[1], t) } })

Start(mode) == IF mode = "exec" THEN <<"Exec", "eof">> ELSE <<"SDL", "eof">>
(* does token t start a definition? It does when what remains of the one before it is empty *)
RECURSIVE StartsDef(_, _)
StartsDef(stack, t) ==
  IF Len(stack) = 2 /\ stack[2] = "eof" THEN TRUE
  ELSE IF stack[1] \in Terminals THEN FALSE
  ELSE Of1({ IF rhs = Reject THEN FALSE ELSE Of1({ StartsDef(st, t) : st \in { rhs \o Tail(stack) } }) : rhs \in { Expand(stack[1], t) } })
=============================================================================
