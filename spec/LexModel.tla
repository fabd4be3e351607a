------------------------------ MODULE LexModel ------------------------------
(* The lexical grammar explored by itself: every text of at most N pieces of *)
(* a theme. Invariants say that it is a lexical grammar at all; every text   *)
(* is then given to the real parser.                                         *)
EXTENDS Lexer, Json, IOUtils

Input == JsonDeserialize(IOEnv.MODEL)      \* [pieces |-> <<points..>>, before |-> , after |-> points, n |-> N, nums |-> canonical floats]
VARIABLES text, n
vars == <<text, n>>
Init == text = Input.before /\ n = 0
Next == /\ n < Input.n
        /\ \E i \in 1..Len(Input.pieces) : text' = text \o Input.pieces[i]
        /\ n' = n + 1
        /\ PrintT(ToJson(text' \o Input.after))
Spec == Init /\ [][Next]_vars

Toks(s) == Lex(s, Input.nums, FALSE)
(* tokens follow each other, cover what they say, and only ignored characters and comments lie between them *)
Gap(s, a, b) == SkipIgnored(s, a) = b
Tiled == \A ts \in {Toks(text)} :
           \A i \in 1..Len(ts) :
             /\ ts[i].k \in {"eof", "err"} <=> i = Len(ts)
             /\ ts[i].k \notin {"eof", "err"} => ts[i].e > ts[i].s
             /\ Gap(text, IF i = 1 THEN 1 ELSE ts[i - 1].e, ts[i].s)
(* what a literal denotes is a value: scalar values only, integers of 32 bits *)
Values == \A ts \in {Toks(text)} :
            \A i \in 1..Len(ts) : ts[i].k = "str" => \A j \in 1..Len(ts[i].v) : IsScalar(ts[i].v[j])
(* a blank after the text changes no token of it, and neither does any text after that, unless it closes an open string or comment *)
Separable == \A ts \in {Toks(text)} : \A more \in {Toks(text \o <<10, 97>>)} :
               ts[Len(ts)].k = "eof" => Len(more) = Len(ts) + 1 /\ \A i \in 1..(Len(ts) - 1) : more[i] = ts[i]
=============================================================================
