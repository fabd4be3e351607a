------------------------------- MODULE Lexer -------------------------------
(* The lexical grammar of GraphQL over sequences of code points: NextTok     *)
(* gives the token that starts at a position, with the text it covers and    *)
(* the value it denotes, or a lexical error.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Of1(S) == CHOOSE x \in S : TRUE

----------------------------------------------------------------------------
(* characters *)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0        \* 0: the end (NUL is treated apart)
Range2(c, a, b) == a <= c /\ c <= b
IsDigit(c) == Range2(c, 48, 57)
IsNameStart(c) == Range2(c, 65, 90) \/ Range2(c, 97, 122) \/ c = 95
IsNameCont(c) == IsNameStart(c) \/ IsDigit(c)
IsHex(c) == IsDigit(c) \/ Range2(c, 65, 70) \/ Range2(c, 97, 102)
IsBreak(c) == c = 10 \/ c = 13
IsBlank(c) == c = 9 \/ c = 32
IsIgnored(c) == IsBlank(c) \/ IsBreak(c) \/ c = 44 \/ c = 65279
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Dig == <<"0","1","2","3","4","5","6","7","8","9">>
Char(c) == CASE Range2(c, 65, 90) -> Upper[c - 64] [] Range2(c, 97, 122) -> Lower[c - 96]
             [] IsDigit(c) -> Dig[c - 47] [] c = 95 -> "_" [] c = 45 -> "-" [] c = 43 -> "+" [] c = 46 -> "."
             [] c = 33 -> "!" [] c = 38 -> "&" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 58 -> ":" [] c = 61 -> "="
             [] c = 64 -> "@" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] c = 124 -> "|" [] c = 125 -> "}"
             [] OTHER -> "?"
(* the text of s[i .. e-1] *)
Text(s, i, e) == FoldLeft(LAMBDA acc, c : acc \o Char(c), "", SubSeq(s, i, e - 1))

(* the first position from i on whose character does not satisfy P (Len(s)+1 when all do) *)
RunEnd(s, i, P(_)) ==
  CHOOSE j \in i..(Len(s) + 1) : /\ (j > Len(s) \/ ~P(s[j]))
                                 /\ \A k \in i..(j - 1) : P(s[k])

----------------------------------------------------------------------------
(* ignored tokens *)
RECURSIVE SkipIgnored(_, _)
SkipIgnored(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF IsIgnored(s[i]) THEN SkipIgnored(s, RunEnd(s, i, IsIgnored))
  ELSE IF s[i] = 35 THEN SkipIgnored(s, RunEnd(s, i, LAMBDA c : ~IsBreak(c)))
  ELSE i

----------------------------------------------------------------------------
(* tokens: kind, text (names, punctuators, canonical numbers), value (code points of a string), start, end *)
Tok(k, x, v, i, e) == [k |-> k, x |-> x, v |-> v, s |-> i, e |-> e]
Bad(i) == Tok("err", "", <<>>, i, i)

(* numbers *)
Digits(s, i) == RunEnd(s, i, IsDigit)
(* does the decimal text d (digits only) exceed the decimal text m of at most the same length? *)
RECURSIVE Above(_, _)
Above(d, m) == IF Len(d) # Len(m) THEN Len(d) > Len(m)
               ELSE d # <<>> /\ (d[1] > m[1] \/ (d[1] = m[1] /\ Above(Tail(d), Tail(m))))
MaxInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>       \* 2147483647
MinInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>       \* 2147483648

(* nums maps the source text of a float literal to the canonical text of the double nearest to it, or "inf" *)
FloatValue(nums, raw) == IF raw \in DOMAIN nums THEN nums[raw] ELSE "inf"

Number(s, i, nums, ruby) ==
  LET neg == s[i] = 45
      a == IF neg THEN i + 1 ELSE i
      i1 == IF At(s, a) = 48 THEN a + 1 ELSE Digits(s, a)
      frac == At(s, i1) = 46 /\ IsDigit(At(s, i1 + 1))
      f1 == IF frac THEN Digits(s, i1 + 1) ELSE i1
      sign == IF At(s, f1 + 1) \in {43, 45} THEN 1 ELSE 0
      expo == At(s, f1) \in {69, 101} /\ IsDigit(At(s, f1 + 1 + sign))
      e == IF expo THEN Digits(s, f1 + 1 + sign) ELSE f1
      next == At(s, e)
      digits == SubSeq(s, a, i1 - 1)
  IN IF ~IsDigit(At(s, a)) THEN Bad(i)
     ELSE IF ~ruby /\ (IsNameCont(next) \/ next = 46) THEN Bad(i)
     ELSE IF frac \/ expo
       THEN Of1({ IF x = "inf" THEN Bad(i) ELSE Tok("float", x, <<>>, i, e) : x \in { FloatValue(nums, Text(s, i, e)) } })
     ELSE IF Above(digits, IF neg THEN MinInt ELSE MaxInt) THEN Bad(i)
     ELSE Tok("int", IF digits = <<48>> THEN "0" ELSE Text(s, i, e), <<>>, i, e)

(* strings *)
IsHigh(u) == Range2(u, 55296, 56319)
IsLow(u) == Range2(u, 56320, 57343)
IsScalar(u) == Range2(u, 0, 1114111) /\ ~IsHigh(u) /\ ~IsLow(u)
HexOf(s, i, e) == FoldLeft(LAMBDA acc, c : IF acc > 1114111 THEN acc ELSE acc * 16 + HexValue(c), 0, SubSeq(s, i, e - 1))
IsFixed(s, j, q) == At(s, j) = 92 /\ At(s, j + 1) = 117 /\ j + 5 < q /\ \A k \in (j + 2)..(j + 5) : IsHex(s[k])

Simple == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)

(* one character or escape sequence starting at j inside a string that ends before q: [n |-> length, c |-> code point or -1] *)
Unit(s, j, q, ruby) ==
  IF s[j] # 92 THEN [n |-> 1, c |-> IF IsBreak(s[j]) /\ ~ruby THEN -1 ELSE s[j]]
  ELSE IF j + 1 < q /\ s[j + 1] \in DOMAIN Simple THEN [n |-> 2, c |-> Simple[s[j + 1]]]
  ELSE IF IsFixed(s, j, q)
    THEN LET u == HexOf(s, j + 2, j + 6)
             w == HexOf(s, j + 8, j + 12)
         IN IF IsHigh(u) /\ IsFixed(s, j + 6, q) /\ IsLow(w)
              THEN [n |-> 12, c |-> 65536 + (u - 55296) * 1024 + (w - 56320)]
            ELSE [n |-> 6, c |-> IF IsScalar(u) THEN u ELSE -1]
  ELSE IF At(s, j + 1) = 117 /\ At(s, j + 2) = 123
    THEN LET z == RunEnd(s, j + 3, IsHex)
         IN IF z > j + 3 /\ z < q /\ s[z] = 125
              THEN [n |-> z + 1 - j, c |-> IF IsScalar(HexOf(s, j + 3, z)) THEN HexOf(s, j + 3, z) ELSE -1]
            ELSE [n |-> 1, c |-> -1]
  ELSE [n |-> 1, c |-> -1]

(* the code points denoted by s[b .. q-1], or <<-1>> when it is not a valid string *)
Decode(s, b, q, ruby) ==
  FoldLeft(LAMBDA acc, j :
             IF acc.bad \/ j < acc.next THEN acc
             ELSE Of1({ [next |-> j + u.n, bad |-> u.c = -1, out |-> Append(acc.out, u.c)] : u \in {Unit(s, j, q, ruby)} }),
           [next |-> b, bad |-> FALSE, out |-> <<>>], [k \in 1..(q - b) |-> b + k - 1])

(* a quote ends a string when an even number of back-slashes comes before it *)
Slashes(s, b, j) == Cardinality({ k \in b..(j - 1) : \A m \in k..(j - 1) : s[m] = 92 })
IsClose(s, b, j) == s[j] = 34 /\ (IF j = b \/ s[j - 1] # 92 THEN TRUE ELSE Slashes(s, b, j) % 2 = 0)
FirstThat(lo, hi, P(_)) == CHOOSE j \in lo..(hi + 1) : (j > hi \/ P(j)) /\ \A k \in lo..(j - 1) : ~P(k)

PlainString(s, i, ruby) ==
  Of1({ IF q > Len(s) THEN Bad(i)
        ELSE Of1({ IF d.bad THEN Bad(i) ELSE Tok("str", "", d.out, i, q + 1) : d \in { Decode(s, i + 1, q, ruby) } })
        : q \in { FirstThat(i + 1, Len(s), LAMBDA j : IsClose(s, i + 1, j)) } })

(* block strings *)
Triple(s, j) == At(s, j) = 34 /\ At(s, j + 1) = 34 /\ At(s, j + 2) = 34
(* three quotes at j end the block unless they overlap an escaped triple quote that starts at or after b *)
Escaped(s, b, j) == \E k \in 1..3 : j - k >= b /\ s[j - k] = 92 /\ Triple(s, j - k + 1)
BlockEnd(s, b) == FirstThat(b, Len(s), LAMBDA j : Triple(s, j) /\ ~Escaped(s, b, j))

(* the raw content as lines, escaped triple quotes replaced *)
BlockLines(s, b, q) ==
  FoldLeft(LAMBDA acc, j :
             IF j < acc.next THEN acc
             ELSE IF s[j] = 92 /\ Triple(s, j + 1) THEN [next |-> j + 4, done |-> acc.done, cur |-> acc.cur \o <<34, 34, 34>>]
             ELSE IF s[j] = 13 /\ j + 1 < q /\ s[j + 1] = 10 THEN [next |-> j + 2, done |-> Append(acc.done, acc.cur), cur |-> <<>>]
             ELSE IF IsBreak(s[j]) THEN [next |-> j + 1, done |-> Append(acc.done, acc.cur), cur |-> <<>>]
             ELSE [next |-> j + 1, done |-> acc.done, cur |-> Append(acc.cur, s[j])],
           [next |-> b, done |-> <<>>, cur |-> <<>>], [k \in 1..(q - b) |-> b + k - 1])

Indent(line) == RunEnd(line, 1, IsBlank) - 1
BlankLine(line) == Indent(line) = Len(line)
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x

(* BlockStringValue of the specification, over a sequence of lines *)
BlockValue(lines) ==
  LET deep == { n \in 2..Len(lines) : ~BlankLine(lines[n]) }
      common == IF deep = {} THEN 0 ELSE MinOf({ Indent(lines[n]) : n \in deep })
      cut == [n \in 1..Len(lines) |-> IF n = 1 THEN lines[n] ELSE SubSeq(lines[n], common + 1, Len(lines[n]))]
      full == { n \in 1..Len(lines) : ~BlankLine(cut[n]) }
  IN IF full = {} THEN <<>>
     ELSE FoldLeft(LAMBDA acc, n : IF n < MinOf(full) \/ n > MaxOf(full) THEN acc
                                   ELSE IF n = MinOf(full) THEN cut[n] ELSE acc \o <<10>> \o cut[n],
                   <<>>, [n \in 1..Len(lines) |-> n])

BlockString(s, i) ==
  Of1({ IF q > Len(s) THEN Bad(i)
        ELSE Tok("str", "", Of1({ BlockValue(Append(w.done, w.cur)) : w \in {BlockLines(s, i + 3, q)} }), i, q + 3)
        : q \in { BlockEnd(s, i + 3) } })

(* names, punctuators *)
Puncts == {33, 38, 40, 41, 58, 61, 64, 91, 93, 123, 124, 125}

(* the token that starts at position i, where no ignored token starts *)
TokenAt(s, i, nums, ruby) ==
  LET c == s[i] IN
  IF c \in Puncts THEN Tok("p", Char(c), <<>>, i, i + 1)
  ELSE IF IsNameStart(c) THEN Of1({ Tok("name", Text(s, i, e), <<>>, i, e) : e \in {RunEnd(s, i, IsNameCont)} })
  ELSE IF c = 46 THEN IF At(s, i + 1) = 46 /\ At(s, i + 2) = 46 THEN Tok("p", "...", <<>>, i, i + 3) ELSE Bad(i)
  ELSE IF c = 36 THEN
    Of1({ IF IsNameStart(At(s, n)) THEN Of1({ Tok("var", Text(s, n, e), <<>>, i, e) : e \in {RunEnd(s, n, IsNameCont)} }) ELSE Bad(i)
          : n \in {SkipIgnored(s, i + 1)} })
  ELSE IF c = 45 \/ IsDigit(c) THEN Number(s, i, nums, ruby)
  ELSE IF c = 34 THEN IF Triple(s, i) THEN BlockString(s, i) ELSE PlainString(s, i, ruby)
  ELSE Bad(i)

(* the next token at or after position i: skips ignored tokens; the end has its own kind *)
NextTok(s, i, nums, ruby) ==
  Of1({ IF p > Len(s) THEN Tok("eof", "", <<>>, Len(s) + 1, Len(s) + 1) ELSE TokenAt(s, p, nums, ruby) : p \in {SkipIgnored(s, i)} })

(* all tokens of a text, up to and with the first lexical error or the end *)
Closed(s, toks) == IF toks # <<>> /\ toks[Len(toks)].k \in {"eof", "err"} THEN toks
                   ELSE Append(toks, Tok("eof", "", <<>>, Len(s) + 1, Len(s) + 1))
Lex(s, nums, ruby) ==
  Closed(s, FoldLeft(LAMBDA acc, j :
             IF j < acc.next THEN acc
             ELSE Of1({ IF t.k \in {"eof", "err"} THEN [next |-> Len(s) + 1, toks |-> Append(acc.toks, t)]
                        ELSE [next |-> t.e, toks |-> Append(acc.toks, t)] : t \in {NextTok(s, j, nums, ruby)} }),
           [next |-> 1, toks |-> <<>>], [k \in 1..Len(s) |-> k]).toks)

(* what a token stands for, without its place *)
Sym(t) == <<t.k, t.x, t.v>>
=============================================================================
