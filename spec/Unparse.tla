------------------------------ MODULE Unparse ------------------------------
(* The one token sequence every syntax tree denotes (up to separators that   *)
(* carry no meaning), with marks around the constructs whose place in the    *)
(* source the parser reports. A parse is faithful when the tokens of the     *)
(* text are those of the tree.                                               *)
EXTENDS Grammar

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Each(f(_), s) == Flat(Map(f, s))

P(x) == << <<"p", x, <<>>>> >>
W(x) == << <<"name", x, <<>>>> >>
M(kind, id, items) == << <<"<", kind, id>> >> \o items \o << <<">", kind, id>> >>
Some(s, items) == IF s = "" THEN <<>> ELSE items
Wrap(s, open, close) == IF s = <<>> THEN <<>> ELSE P(open) \o s \o P(close)

RECURSIVE UValue(_), UType(_), USel(_)
UValue(v) ==
  M("value", v.id,
    CASE v.k \in {"int", "float"} -> << <<v.k, v.x, <<>>>> >>
      [] v.k = "str" -> << <<"str", "", v.v>> >>
      [] v.k = "var" -> << <<"var", v.x, <<>>>> >>
      [] v.k = "list" -> P("[") \o Each(UValue, v.l) \o P("]")
      [] v.k = "obj" -> P("{") \o Each(LAMBDA e : M("key", e.v.id, W(e.n)) \o P(":") \o UValue(e.v), v.o) \o P("}")
      [] OTHER -> W(v.x))
UArgs(args) ==
  IF args = <<>> THEN <<>>
  ELSE M("args", 0, P("(") \o Each(LAMBDA a : M("arg", a.id, M("argname", a.id, W(a.n)) \o P(":") \o UValue(a.v)), args) \o P(")"))
UDirs(ds) == Each(LAMBDA d : M("dir", d.id, P("@") \o M("dirname", d.id, W(d.n)) \o UArgs(d.args)), ds)
UType(t) == M("type", 0, (IF t.k = "N" THEN W(t.n) ELSE P("[") \o UType(t.of) \o P("]")) \o IF t.r THEN P("!") ELSE <<>>)
UDefault(d) == IF d = <<>> THEN <<>> ELSE P("=") \o UValue(d[1])

(* executable definitions *)
USelSet(ss, id) == IF ss = <<>> THEN <<>> ELSE M("selset", id, P("{") \o Each(USel, ss) \o P("}"))
USel(s) ==
  CASE s.k = "field" -> M("field", s.id, Some(s.alias, W(s.alias) \o P(":")) \o M("fieldname", s.id, W(s.name)) \o UArgs(s.args)
                                   \o UDirs(s.dirs) \o USelSet(s.sel, s.id))
    [] s.k = "spr" -> M("spread", s.id, P("...") \o M("spreadname", s.id, W(s.name))) \o UDirs(s.dirs)
    [] s.k = "inl" -> M("inline", s.id, P("...") \o Some(s.on, W("on") \o M("inlineon", s.id, W(s.on))) \o UDirs(s.dirs) \o USelSet(s.sel, s.id))
UVarDef(v) == M("varname", v.id, << <<"var", v.name, <<>>>> >>) \o P(":") \o M("vartype", v.id, UType(v.type)) \o UDefault(v.def) \o UDirs(v.dirs)
UOp(o) ==
  M("op", o.id, IF o.short THEN USelSet(o.sel, o.id)
          ELSE M("optype", o.id, W(o.op)) \o Some(o.name, M("opname", o.id, W(o.name)))
               \o Wrap(Each(UVarDef, o.vars), "(", ")") \o UDirs(o.dirs) \o USelSet(o.sel, o.id))
UFrag(f) == M("frag", f.id, W("fragment") \o M("fragname", f.id, W(f.name)) \o W("on") \o M("fragon", f.id, W(f.on)) \o UDirs(f.dirs) \o USelSet(f.sel, f.id))
UExecDefs(doc) == Map(UOp, doc.ops) \o Map(UFrag, doc.frags)

(* the printer writes a shorthand operation in full *)
Longhand(o) == [o EXCEPT !.short = FALSE, !.op = "query", !.name = ""]

(* type system definitions; the separators & and | are left out *)
UDesc(d) == IF d = <<>> THEN <<>> ELSE << <<"str", "", d[1]>> >>
UInput(v) == UDesc(v.desc) \o W(v.name) \o P(":") \o UType(v.type) \o UDefault(v.def) \o UDirs(v.dirs)
UArgDefs(as) == Wrap(Each(UInput, as), "(", ")")
UField(f) == UDesc(f.desc) \o W(f.name) \o UArgDefs(f.args) \o P(":") \o UType(f.type) \o UDirs(f.dirs)
UNames(ns) == Each(W, ns)
UTypeDef(t) ==
  UDesc(t.desc) \o
  CASE t.k = "scalar" -> W("scalar") \o W(t.name) \o UDirs(t.dirs)
    [] t.k \in {"object", "interface"} ->
         W(IF t.k = "object" THEN "type" ELSE "interface") \o W(t.name)
         \o (IF t.ifaces = <<>> THEN <<>> ELSE W("implements") \o UNames(t.ifaces))
         \o UDirs(t.dirs) \o P("{") \o Each(UField, t.fields) \o P("}")
    [] t.k = "union" -> W("union") \o W(t.name) \o UDirs(t.dirs) \o P("=") \o UNames(t.members)
    [] t.k = "enum" -> W("enum") \o W(t.name) \o UDirs(t.dirs) \o P("{")
                       \o Each(LAMBDA v : UDesc(v.desc) \o W(v.name) \o UDirs(v.dirs), t.values) \o P("}")
    [] t.k = "input" -> W("input") \o W(t.name) \o UDirs(t.dirs) \o P("{") \o Each(UInput, t.fields) \o P("}")
UDirDef(d) == UDesc(d.desc) \o W("directive") \o P("@") \o W(d.name) \o UArgDefs(d.args)
              \o (IF d.rep THEN W("repeatable") ELSE <<>>) \o W("on") \o UNames(d.locs)

(* every order in which the root operation types may be listed *)
Roots(s) == (IF s.query = "" THEN {} ELSE {<<"query", s.query>>}) \cup (IF s.mutation = "" THEN {} ELSE {<<"mutation", s.mutation>>})
            \cup (IF s.subscription = "" THEN {} ELSE {<<"subscription", s.subscription>>})
Orders(S) == { p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j] }
USchemas(s) == { UDesc(s.desc) \o W("schema") \o UDirs(s.dirs) \o P("{") \o Each(LAMBDA r : W(r[1]) \o P(":") \o W(r[2]), p) \o P("}")
                 : p \in Orders(Roots(s)) }

----------------------------------------------------------------------------
IsMark(x) == x[1] \in {"<", ">"}
Symbols(items) == SelectSeq(items, LAMBDA x : ~IsMark(x))
Solid(syms) == SelectSeq(syms, LAMBDA x : ~(x[1] = "p" /\ x[2] \in {"&", "|"}))

(* the marked constructs of items: kind, first token, last token, identity; n is the number of tokens before *)
Places(items, n) ==
  FoldLeft(LAMBDA acc, x :
             IF x[1] = "<" THEN [acc EXCEPT !.open = Append(acc.open, acc.n + 1)]
             ELSE IF x[1] = ">" THEN [acc EXCEPT !.open = Front(acc.open), !.out = acc.out \cup {<<x[2], Last(acc.open), acc.n, x[3]>>}]
             ELSE [acc EXCEPT !.n = acc.n + 1],
           [open |-> <<>>, out |-> {}, n |-> n], items).out

----------------------------------------------------------------------------
(* line and column (counted in code points) of position i: lines end at LF, CR, or CR LF *)
EndsLine(s, k) == s[k] = 10 \/ (s[k] = 13 /\ At(s, k + 1) # 10)
LineCol(s, i) ==
  LET ends == { k \in 1..(i - 1) : EndsLine(s, k) }
  IN <<Cardinality(ends) + 1, i - (IF ends = {} THEN 0 ELSE MaxOf(ends))>>
=============================================================================
