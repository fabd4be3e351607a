--------------------------- MODULE TypegenModel ---------------------------
(* Every small response against every small query of one program, whose      *)
(* operations each select one field. A state is (operation, value); values   *)
(* grow one step at a time. Each state is printed with the verdict of the    *)
(* specification, to be replayed, and the verdict is checked against what is *)
(* known about it otherwise.                                                 *)
EXTENDS Typegen, Json, IOUtils

CONSTANTS MaxV

P == ndJsonDeserialize(IOEnv.PROG)[1]
VARIABLES o, v, n

Num(ik, i, f) == [k |-> "num", ik |-> ik, i |-> i, f |-> f]
Str(s) == [k |-> "str", s |-> s]
Null == [k |-> "null"]
Atoms == {Null, Str("RED"), Str("x"), Str("A"), Num("int", "1", "1.0"), Num("frac", "", "1.5"),
          Num("wide", "4294967296", "4294967296.0"), [k |-> "bool", s |-> "true"]}
Few == {Null, Str("A"), Num("int", "1", "1.0")}
ListOf(x) == [k |-> "list", l |-> x]
ObjOf(x) == [k |-> "obj", o |-> x]
E(k, x) == [n |-> k, v |-> x]
Keys3 == {"__typename", "v", "w"}
TN(x) == ObjOf(<<E("__typename", Str(x))>>)
Seeds == Atoms \cup {ListOf(<<>>), ObjOf(<<>>), TN("A"), TN("B"), TN("C"), TN("Z")}

Init == o \in 1..Len(P.roots) /\ v \in Seeds /\ n = 0
Wrap == \/ v' = ListOf(<<v>>)
        \/ \E key \in Keys3 : v' = ObjOf(<<E(key, v)>>)
Grow == \/ v.k = "list" /\ Len(v.l) < 2 /\ v.l # <<>> /\ \E x \in Few : v' = ListOf(Append(v.l, x))
        \/ v.k = "obj" /\ Len(v.o) < 3 /\ v.o # <<>> /\ \E x \in Few, key \in Keys3 : v' = ObjOf(Append(v.o, E(key, x)))
        \/ v.k = "obj" /\ Len(v.o) < 3 /\ v.o # <<>> /\ \E x \in Few : v' = ObjOf(<<E("__typename", x)>> \o v.o)
Next == n < MaxV /\ n' = n + 1 /\ o' = o /\ (Wrap \/ Grow)
Spec == Init /\ [][Next]_<<o, v, n>>

-----------------------------------------------------------------------------
F == P.roots[o].sel[1]
T == FieldDef(P.schema, RootOf(P, P.roots[o]), F.name).type
Whole(x) == ObjOf(<<E(ResponseName(F), x)>>)
Verdict == Response(P, P.roots[o], Whole(v))
V(t, x) == Decode(P, t, "x", F.sel, x).v

(* the verdict on the response is that on its only value *)
Carries == Verdict.v = V(T, v)
(* a type that refuses null accepts nothing the nullable one refuses, and null is all it adds *)
NullIsAll == IF v.k = "null" THEN V(Nullable(T), v) = "ok" /\ V([T EXCEPT !.r = TRUE], v) = "bad"
             ELSE V(Nullable(T), v) = V([T EXCEPT !.r = TRUE], v)
(* a list is as good as its elements, and nothing but a list will do *)
ListLike == /\ V([k |-> "L", of |-> T, r |-> TRUE], ListOf(<<v>>)) = V(T, v)
            /\ V([k |-> "L", of |-> T, r |-> TRUE], ListOf(<<v, v>>)) = V(T, v)
            /\ (T.k = "L" /\ v.k \notin {"list", "null"} => Verdict.v = "bad")
(* what is decoded holds no null but where the type has room for it *)
RECURSIVE Holds(_)
Holds(d) == CASE d.k = "some" -> Holds(d.d) [] d.k = "list" -> \A i \in DOMAIN d.l : Holds(d.l[i])
              [] d.k = "struct" -> \A x \in DOMAIN d.o : Holds(d.o[x]) [] OTHER -> d.k # "null"
Full == Verdict.v = "ok" => Holds(Verdict.d)
Explained == (Verdict.v = "bad") = (Verdict.why # {})
Emit == PrintT(ToJson([o |-> P.roots[o].name, j |-> v, v |-> Verdict.v, d |-> Verdict.d, why |-> Verdict.why]))
=============================================================================
