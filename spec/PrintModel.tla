----------------------------- MODULE PrintModel -----------------------------
(* How a string of any content can be written in a document, as a quoted or  *)
(* as a block string, and what is read back. TLC tries every value of at     *)
(* most N pieces; each is then printed by the real printer, as a description *)
(* in every place that has one, and as a literal.                            *)
EXTENDS Lexer, Json, IOUtils

Input == JsonDeserialize(IOEnv.MODEL)      \* [pieces |-> <<points..>>, n |-> N]
VARIABLES value, n
vars == <<value, n>>
Init == value = <<>> /\ n = 0
Next == /\ n < Input.n
        /\ \E i \in 1..Len(Input.pieces) : value' = value \o Input.pieces[i]
        /\ n' = n + 1
        /\ PrintT(ToJson(value'))
Spec == Init /\ [][Next]_vars

(* written between quotes *)
Escape(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] OTHER -> <<c>>
Quoted(v) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o Escape(c), <<>>, v) \o <<34>>

(* written as a block, each line indented by m *)
Lines(v) == Of1({ Append(w.done, w.cur) : w \in { FoldLeft(LAMBDA acc, c : IF c = 10 THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                                                       ELSE [done |-> acc.done, cur |-> Append(acc.cur, c)], [done |-> <<>>, cur |-> <<>>], v) } })
Spaces(m) == [i \in 1..m |-> 32]
Tripled(line) == FoldLeft(LAMBDA acc, j : IF j < acc.next THEN acc
                                          ELSE IF Triple(line, j) THEN [next |-> j + 3, out |-> acc.out \o <<92, 34, 34, 34>>]
                                          ELSE [next |-> j + 1, out |-> Append(acc.out, line[j])],
                          [next |-> 1, out |-> <<>>], [k \in 1..Len(line) |-> k]).out
Q3 == <<34, 34, 34>>
Block(v, m) == Q3 \o <<10>> \o (IF v = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, line : acc \o Spaces(m) \o Tripled(line) \o <<10>>, <<>>, Lines(v))) \o Spaces(m) \o Q3

(* the values a block string can stand for *)
Blockable(v) == v = <<>> \/ \E ls \in {Lines(v)} :
  /\ \A i \in 1..Len(v) : v[i] # 13
  /\ ~BlankLine(ls[1]) /\ ~BlankLine(ls[Len(ls)])
  /\ \E i \in 1..Len(ls) : ~BlankLine(ls[i]) /\ Indent(ls[i]) = 0

Read(s) == Of1({ IF Len(ts) = 2 /\ ts[1].k = "str" THEN ts[1].v ELSE <<-1>> : ts \in {Lex(s, ("" :> ""), FALSE)} })
QuotedReadsBack == Read(Quoted(value)) = value
BlockReadsBack == \A m \in {0, 2} : Read(Block(value, m)) = value <=> Blockable(value)
=============================================================================
