------------------------------ MODULE Typegen ------------------------------
(* What a type generated from a query makes of a response, and what a        *)
(* generated input makes of itself.                                          *)
(*                                                                            *)
(* A program P is a record [schema (Gql), ops, frags, alias, snake, pascal]: *)
(* alias says what each custom scalar was declared to be, snake and pascal   *)
(* how names are spelled in Rust. Selection sets are those the generator     *)
(* supports: fields only, or one spread, or __typename and inline fragments. *)
(*                                                                            *)
(* A response is JSON: [k : null|bool|num|str|list|obj, ...]; of a number,   *)
(* ik says whether it is a small integer ("int"), an integer outside 32 bits *)
(* ("wide"), whole but written with a point or exponent ("whole") or not     *)
(* whole ("frac"), i is its integer text and f its decimal text.             *)
(*                                                                            *)
(* The verdict on a response is "ok" (must decode, to d), "bad" (must be     *)
(* refused, because of the things in why) or "free": the response has        *)
(* something about which nothing is promised (a nullable field left out, a   *)
(* key that was not selected, a key given twice, the discriminator late).    *)
EXTENDS Gql

OkD(d) == [v |-> "ok", d |-> d, why |-> {}]
Bad(w) == [v |-> "bad", d |-> [k |-> "unit", s |-> "?"], why |-> {w}]
Free == [v |-> "free", d |-> [k |-> "unit", s |-> "?"], why |-> {}]

Unit(s) == [k |-> "unit", s |-> s]
SomeOf(d) == [k |-> "some", d |-> d]

(* one verdict from those of the parts: bad if one is, else free if one is *)
Join(rs, d) ==
  LET bad == { i \in DOMAIN rs : rs[i].v = "bad" } IN
  IF bad # {} THEN [v |-> "bad", d |-> Unit("?"), why |-> UNION { rs[i].why : i \in bad }]
  ELSE IF \E i \in DOMAIN rs : rs[i].v = "free" THEN Free ELSE OkD(d)

Of1(s) == CHOOSE x \in s : TRUE

Keys(j) == { j.o[i].n : i \in 1..Len(j.o) }
At(j, key) == { i \in 1..Len(j.o) : j.o[i].n = key }

(* ---------------------------------------------------------------- leaves *)
IntLike(j) == IF j.k # "num" THEN Bad("kind")
              ELSE CASE j.ik = "int" -> OkD([k |-> "int", s |-> j.i])
                     [] j.ik = "whole" -> Free
                     [] OTHER -> Bad("range")
LongLike(j) == IF j.k # "num" THEN Bad("kind")
               ELSE CASE j.ik \in {"int", "wide"} -> OkD([k |-> "int", s |-> j.i])
                      [] j.ik = "whole" -> Free
                      [] OTHER -> Bad("range")
FloatLike(j) == IF j.k = "num" THEN OkD([k |-> "float", s |-> j.f]) ELSE Bad("kind")
StringLike(j) == IF j.k = "str" THEN OkD([k |-> "str", s |-> j.s]) ELSE Bad("kind")
BoolLike(j) == IF j.k = "bool" THEN OkD([k |-> "bool", s |-> j.s]) ELSE Bad("kind")

Leaf(P, n, j) ==
  CASE n = "Int" -> IntLike(j)
    [] n = "Float" -> FloatLike(j)
    [] n \in {"String", "ID"} -> StringLike(j)
    [] n = "Boolean" -> BoolLike(j)
    [] KindOf(P.schema, n) = "enum" ->
         IF j.k = "str" THEN OkD(Unit(IF j.s \in RangeOf(P.schema.types[n].values) THEN P.pascal[j.s] ELSE "Other"))
         ELSE IF j.k = "obj" THEN Bad("object for enum") ELSE Bad("kind")
    [] OTHER -> CASE P.alias[n] = "String" -> StringLike(j)
                  [] P.alias[n] = "i64" -> LongLike(j)
                  [] P.alias[n] = "f64" -> FloatLike(j)
                  [] P.alias[n] = "bool" -> BoolLike(j)

(* ------------------------------------------------------------- composites *)
FragOf(P, n) == P.frags[Of1({ i \in 1..Len(P.frags) : P.frags[i].name = n })]
Spread(sel) == Len(sel) = 1 /\ sel[1].k = "spr"

RECURSIVE Decode(_, _, _, _, _), DecodeBase(_, _, _, _, _), Struct(_, _, _, _)

(* type t, name of the type made for a selection set, the selection set, JSON *)
Decode(P, t, name, sel, j) ==
  IF ~t.r THEN IF j.k = "null" THEN OkD(Unit("None"))
               ELSE Of1({ [r EXCEPT !.d = IF r.v = "ok" THEN SomeOf(r.d) ELSE r.d]
                          : r \in {Decode(P, [t EXCEPT !.r = TRUE], name, sel, j)} })
  ELSE IF j.k = "null" THEN Bad("null")
  ELSE IF t.k = "L" THEN
    IF j.k # "list" THEN Bad("kind")
    ELSE Of1({ Join(rs, [k |-> "list", l |-> TLCEval([i \in DOMAIN rs |-> rs[i].d])])
               : rs \in { TLCEval([i \in 1..Len(j.l) |-> Of1({ Decode(P, t.of, name, sel, x) : x \in {j.l[i]} })]) } })
  ELSE Of1({ DecodeBase(P, t.n, name, x, j) : x \in {sel} })

(* the fields of a struct or of a variant: verdict with the values by Rust name *)
Struct(P, tn, fields, j) ==
  LET one(f) == Of1({ LET at == b[1]
                          ft == b[2] IN
        IF Cardinality(at) > 1 THEN Free
        ELSE IF at = {} THEN IF ft.r THEN Bad("missing") ELSE Free
        ELSE Of1({ Decode(P, ft, ResponseName(f), f.sel, x) : x \in {j.o[Of1(at)].v} })
        : b \in {<<At(j, ResponseName(f)), FieldDef(P.schema, tn, f.name).type>>} })
  IN Of1({ Join(rs, TLCEval([x \in { P.snake[ResponseName(fields[i])] : i \in 1..Len(fields) } |->
                        rs[Of1({ i \in 1..Len(fields) : P.snake[ResponseName(fields[i])] = x })].d]))
           : rs \in { TLCEval([i \in 1..Len(fields) |-> Of1({ one(f) : f \in {fields[i]} })]) } })

Extra(j, keys) == Keys(j) \ keys # {}
Loosen(r, loose) == IF loose /\ r.v = "ok" THEN Free ELSE r
SelKeys(fields) == { ResponseName(fields[i]) : i \in 1..Len(fields) }

Inlines(sel) == { i \in 1..Len(sel) : sel[i].k = "inl" }
(* what an inline fragment adds to its variant: the discriminator is the variant *)
Own(sel) == SelectSeq(sel, LAMBDA f : ResponseName(f) # "__typename")

Variant(P, sel, j) ==
  IF j.k # "obj" THEN Bad(IF j.k = "list" THEN "list for object" ELSE "kind")
  ELSE LET at == At(j, "__typename") IN
    IF at = {} THEN Bad("discriminator")
    ELSE IF Cardinality(at) > 1 THEN Free
    ELSE IF j.o[Of1(at)].v.k # "str" THEN Bad(IF j.o[Of1(at)].v.k = "num" THEN "number for discriminator" ELSE "discriminator")
    ELSE LET tn == j.o[Of1(at)].v.s
             arms == { i \in Inlines(sel) : sel[i].on = tn } IN
      IF arms = {} THEN Loosen(OkD(Unit("Other")), Len(j.o) > 1)
      ELSE LET own == Own(sel[Of1(arms)].sel) IN
        Of1({ Loosen(IF r.v = "ok" THEN OkD(IF own = <<>> THEN Unit(P.pascal[tn])
                                           ELSE [k |-> "struct", n |-> P.pascal[tn], o |-> r.d]) ELSE r,
                     Extra(j, SelKeys(own) \cup {"__typename"}) \/ at # {1})
              : r \in {Struct(P, tn, own, j)} })

DecodeBase(P, n, name, sel, j) ==
  CASE IsLeafName(P.schema, n) -> Leaf(P, n, j)
    [] Spread(sel) -> Of1({ DecodeBase(P, f.on, f.name, f.sel, j) : f \in {FragOf(P, sel[1].name)} })
    [] KindOf(P.schema, n) = "union" -> Variant(P, sel, j)
    [] OTHER ->
         IF j.k # "obj" THEN Bad(IF j.k = "list" THEN "list for object" ELSE "kind")
         ELSE Of1({ Loosen(IF r.v = "ok" THEN OkD([k |-> "struct", n |-> P.pascal[name], o |-> r.d]) ELSE r,
                           Extra(j, SelKeys(sel)))
                    : r \in {Struct(P, n, sel, j)} })

(* the whole response, as the type made for an operation or a fragment *)
RootOf(P, o) == IF o.op = "fragment" THEN o.on ELSE CASE o.op = "query" -> P.schema.query
                  [] o.op = "mutation" -> P.schema.mutation [] OTHER -> P.schema.subscription
Response(P, o, j) == DecodeBase(P, RootOf(P, o), IF o.name = "" THEN "Root" ELSE o.name, o.sel, j)

(* ----------------------------------------------------------------- inputs *)
(* what a value given for an input type says, written with the schema's      *)
(* names; null says the same as leaving the field out. "?" is not a value of *)
(* the type.                                                                 *)
Wrong == [k |-> "wrong"]
RECURSIVE Says(_, _, _)
Says(P, t, j) ==
  IF j.k = "null" THEN IF t.r THEN Wrong ELSE [k |-> "null"]
  ELSE IF t.k = "L" THEN IF j.k = "list" THEN [k |-> "list", l |-> [i \in 1..Len(j.l) |-> Says(P, t.of, j.l[i])]] ELSE Wrong
  ELSE IF KindOf(P.schema, t.n) = "input" THEN
    IF j.k # "obj" THEN Wrong
    ELSE LET ins == P.schema.types[t.n].inputs
             given == { i \in 1..Len(j.o) : j.o[i].v.k # "null" }
             keys == { j.o[i].n : i \in given } IN
      IF \/ ~(Keys(j) \subseteq DOMAIN ins) \/ Cardinality(Keys(j)) # Len(j.o)
         \/ (P.schema.types[t.n].oneof /\ (Cardinality(given) # 1 \/ Len(j.o) # 1))
         \/ \E n \in DOMAIN ins : Required(ins[n].type, ins[n].def) /\ n \notin keys
      THEN Wrong
      ELSE [k |-> "obj", o |-> [n \in keys |-> Says(P, ins[n].type, j.o[Of1(At(j, n))].v)]]
  ELSE IF KindOf(P.schema, t.n) = "enum" THEN
    IF j.k = "str" /\ j.s \in RangeOf(P.schema.types[t.n].values) THEN [k |-> "str", s |-> j.s] ELSE Wrong
  ELSE Of1({ IF r.v = "ok" THEN r.d ELSE Wrong : r \in {Leaf(P, t.n, j)} })

RECURSIVE Sound(_)
Sound(x) == CASE x.k = "wrong" -> FALSE
              [] x.k = "list" -> \A i \in DOMAIN x.l : Sound(x.l[i])
              [] x.k = "obj" -> \A n \in DOMAIN x.o : Sound(x.o[n])
              [] OTHER -> TRUE
=============================================================================
