---------------------------- MODULE CompareModel ----------------------------
(* Pairs of schemas as a machine: each step takes one part of a schema (a    *)
(* slot: a type, an argument, a default value, a list of directives, ...)    *)
(* and gives it two different forms in the two schemas. TLC reaches every    *)
(* pair that differs in at most N parts; each is printed and the two schemas *)
(* are given to the real code. Invariants: a schema does not differ from     *)
(* itself, the way back is the mirror of the way there, and the changes of   *)
(* several parts are those of each part alone.                               *)
EXTENDS Compare, Json, IOUtils

(* [n |-> N, base |-> schema, slots |-> << [path |-> << name, ... >>, forms |-> << [here |-> BOOLEAN, x |-> value] >>] >>] *)
Input == JsonDeserialize(IOEnv.MODEL)

RECURSIVE Put(_, _, _)
Put(f, p, form) ==
  IF Len(p) = 1
  THEN IF form.here THEN [k \in DOMAIN f \cup {p[1]} |-> IF k = p[1] THEN form.x ELSE f[k]]
       ELSE [k \in DOMAIN f \ {p[1]} |-> f[k]]
  ELSE [k \in DOMAIN f |-> IF k = p[1] THEN Put(f[k], Tail(p), form) ELSE f[k]]

Key(c) == <<c.k, c.path, c.on, c.a, c.b, c.crit>>
Keys(s) == [i \in 1..Len(s) |-> Key(s[i])]

VARIABLES old, new, picks, log
vars == <<old, new, picks, log>>

Init == old = Input.base /\ new = Input.base /\ picks = <<>> /\ log = <<>>
Next ==
  /\ Len(picks) < Input.n
  /\ \E i \in 1..Len(Input.slots) : \E s \in {Input.slots[i]} :
       /\ picks # <<>> => i > picks[Len(picks)][1]
       /\ \E u, v \in 1..Len(s.forms) :
            /\ u # v
            /\ old' = Put(old, s.path, s.forms[u]) /\ new' = Put(new, s.path, s.forms[v])
            /\ picks' = Append(picks, <<i, u, v>>)
            /\ \E a \in { TLCEval(Put(Input.base, s.path, s.forms[u])) } : \E b \in { TLCEval(Put(Input.base, s.path, s.forms[v])) } :
                 log' = log \o TLCEval(Keys(Diff(a, b)))
            /\ PrintT(ToJson(picks'))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Itself == Diff(old, old) = <<>> /\ Diff(new, new) = <<>>
ThereAndBack == \A d \in { TLCEval(Diff(old, new)) } : \A e \in { TLCEval(Diff(new, old)) } :
                  SameBag([i \in 1..Len(d) |-> Mirrored(d[i])], [i \in 1..Len(e) |-> Place(e[i])])
Additive == \A d \in { TLCEval(Keys(Diff(old, new))) } : SameBag(d, log)

(* what "safe" means for types: every answer of the new type is one of the old; every input of the old is one of the new *)
Nm(n, r) == [k |-> "N", n |-> n, r |-> r]
Ls(t, r) == [k |-> "L", of |-> t, r |-> r]
T0 == { Nm(n, r) : n \in {"A", "B"}, r \in BOOLEAN }
T1 == { Ls(t, r) : t \in T0, r \in BOOLEAN }
T2 == { Ls(t, r) : t \in T1, r \in BOOLEAN }
Ts == T0 \cup T1 \cup T2
V0 == {[k |-> "null", l |-> <<>>], [k |-> "A", l |-> <<>>], [k |-> "B", l |-> <<>>]}
Lists(V) == {[k |-> "list", l |-> <<>>]} \cup {[k |-> "list", l |-> <<v>>] : v \in V}
V1 == V0 \cup Lists(V0)
Vs == V1 \cup Lists(V1) \cup Lists(Lists(V1))
RECURSIVE Fits(_, _)
Fits(t, v) == CASE v.k = "null" -> ~t.r
                [] v.k = "list" -> t.k = "L" /\ \A i \in 1..Len(v.l) : Fits(t.of, v.l[i])
                [] OTHER -> t.k = "N" /\ t.n = v.k
Within(s, t) == \A v \in Vs : Fits(s, v) => Fits(t, v)
ASSUME \A s, t \in Ts : (Covariant(s, t) <=> Within(t, s)) /\ (Contravariant(s, t) <=> Within(s, t))
=============================================================================
