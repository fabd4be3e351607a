--------------------------- MODULE TypegenTrace ---------------------------
(* Trace validation: each line is a program with the responses its types     *)
(* were given, or the inputs that were built and encoded, under every codec, *)
(* and what came of each.                                                    *)
EXTENDS Typegen, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rejected

Root(P, n) == LET i == { x \in 1..Len(P.roots) : P.roots[x].name = n } IN P.roots[Of1(i)]

(* how codec x answered, against what the specification says of the response *)
Decoded(want, g) ==
  CASE want.v = "free" -> TRUE
    [] want.v = "ok" -> g.ok /\ g.d = want.d
    [] OTHER -> ~g.ok

Encoded(P, c, g) == LET says == Says(P, c.type, c.j) IN
  /\ Sound(says)
  /\ g.ok /\ Says(P, c.type, g.j) = says

Judge(P, c) ==
  IF c.k = "decode"
  THEN Of1({ [want |-> w, bad |-> { i \in DOMAIN c.got : ~Decoded(w, c.got[i]) }] : w \in {TLCEval(Response(P, Root(P, c.root), c.j))} })
  ELSE [want |-> [v |-> "encode", d |-> Unit("?"), why |-> {}], bad |-> { i \in DOMAIN c.got : ~Encoded(P, c, c.got[i]) }]

Step ==
  /\ l <= Len(Trace)
  /\ \E t \in {Trace[l]} :
     \E js \in { TLCEval([i \in 1..Len(t.cases) |-> Judge(t.prog, t.cases[i])]) } :
     LET bad == { i \in 1..Len(t.cases) : js[i].bad # {} }
         n(x) == Cardinality({ i \in 1..Len(t.cases) : js[i].want.v = x })
     IN /\ rejected' = rejected + Cardinality(bad)
        /\ PrintT(ToJson([line |-> t.line, ok |-> n("ok"), refused |-> n("bad"), free |-> n("free"), encoded |-> n("encode"),
              bad |-> { [case |-> i, codecs |-> js[i].bad, want |-> js[i].want] : i \in bad }]))
  /\ l' = l + 1

Init == l = 1 /\ rejected = 0
Spec == Init /\ [][Step]_<<l, rejected>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
