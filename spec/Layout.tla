------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How SQL text is read as tokens, and how tokens may be laid out as text.  *)
(*                                                                         *)
(* A layout writes tokens one after the other with blanks in between.  The  *)
(* blanks are free, except where two tokens would become one or a comment   *)
(* would not end: `Allowed` says where.  ReadsBack states that this is      *)
(* enough: whatever a layout writes is read as the tokens it wrote.         *)
(* Characters are numbers (Unicode).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT MaxToks

\* the tokens a layout may write when it is checked exhaustively
Lexemes == {
  <<97>>,                                  \* a
  <<49, 46, 53>>,                          \* 1.5
  <<50, 101, 43, 49>>,                     \* 2e+1
  <<64, 118>>,                             \* @v
  <<39, 120, 39>>,                         \* 'x'
  <<39, 105, 116, 39, 39, 115, 39>>,       \* 'it''s'
  <<39, 39>>,                              \* ''
  <<34, 113, 34>>,                         \* "q"
  <<96, 98, 96>>,                          \* `b`
  <<45>>,                                  \* -
  <<47>>,                                  \* /
  <<42>>,                                  \* *
  <<61>>,                                  \* =
  <<62>>,                                  \* >
  <<60>>,                                  \* <
  <<33>>,                                  \* !
  <<58>>,                                  \* :
  <<124>>,                                 \* |
  <<40>>,                                  \* (
  <<59>>,                                  \* ;
  <<44>>,                                  \* ,
  <<47, 42, 42, 47>>,                      \* /**/
  <<47, 42, 32, 120, 32, 42, 47>>,         \* /* x */
  <<45, 45, 32, 99>>,                      \* -- c
  <<35, 32, 99>>,                          \* # c
  <<62, 61>>,                              \* >=
  <<60, 62>>                               \* <>
 }
Gaps == {<<>>, <<32>>, <<10>>}

VARIABLES toks, text
vars == <<toks, text>>

Blank(c) == c \in 9..13 \cup {32, 160}
Break(c) == c \in {10, 13}
\* letters, digits, _ $ @ and the dot of qualified names and numbers
WordCh(c) == c \in 48..57 \cup 65..90 \cup 97..122 \cup {95, 36, 64, 46} \/ (c >= 128 /\ c # 160)
Quote(c) == c \in {39, 34, 96}
Pairs == {<<60, 61>>, <<62, 61>>, <<60, 62>>, <<33, 61>>, <<124, 124>>, <<58, 61>>, <<38, 38>>, <<60, 60>>, <<62, 62>>}

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 10
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN Skip(s, i + 1) ELSE i
\* the sign of an exponent belongs to the number
Digit(c) == c \in 48..57
RECURSIVE WordEnd(_, _, _)
WordEnd(s, i, num) ==
  IF i <= Len(s) /\ (WordCh(s[i]) \/ (num /\ s[i] \in {43, 45} /\ s[i - 1] \in {69, 101} /\ Digit(At(s, i + 1)))) THEN WordEnd(s, i + 1, num) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i <= Len(s) /\ ~Break(s[i]) THEN LineEnd(s, i + 1) ELSE i
RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) == IF i > Len(s) THEN i ELSE IF s[i] = 42 /\ At(s, i + 1) = 47 THEN i + 2 ELSE CommentEnd(s, i + 1)
\* a quote within quotes is doubled, or (not within backticks) follows a backslash
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, i, q) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE IF s[i] = 92 /\ q # 96 THEN QuoteEnd(s, i + 2, q)
  ELSE IF s[i] = q THEN (IF At(s, i + 1) = q THEN QuoteEnd(s, i + 2, q) ELSE i + 1)
  ELSE QuoteEnd(s, i + 1, q)

\* the token that begins at i: its kind and where the text goes on
Token(s, i) ==
  LET c == s[i] d == At(s, i + 1)
  IN CASE c = 39 -> [k |-> "string", e |-> QuoteEnd(s, i + 1, c)]
       [] c = 34 -> [k |-> "dquote", e |-> QuoteEnd(s, i + 1, c)]
       [] c = 96 -> [k |-> "quoted", e |-> QuoteEnd(s, i + 1, c)]
       [] c = 47 /\ d = 42 -> [k |-> "comment", e |-> CommentEnd(s, i + 2)]
       [] c = 35 \/ (c = 45 /\ d = 45 /\ Blank(At(s, i + 2))) -> [k |-> "line", e |-> LineEnd(s, i)]
       [] WordCh(c) -> [k |-> "word", e |-> WordEnd(s, i, Digit(c) \/ c = 46)]
       [] <<c, d>> \in Pairs -> [k |-> "op", e |-> i + 2]
       [] OTHER -> [k |-> "op", e |-> i + 1]

RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  LET j == Skip(s, i)
  IN IF j > Len(s) THEN <<>> ELSE LET t == Token(s, j) IN <<SubSeq(s, j, t.e - 1)>> \o Tokens(s, t.e)

----------------------------------------------------------------------------
Kind(l) == Token(l, 1).k
Last(l) == l[Len(l)]

\* written next to each other, two tokens would be read as something else
Fuse(a, b) ==
  \/ WordCh(Last(a)) /\ WordCh(b[1]) /\ Kind(a) = "word"
  \/ Quote(b[1]) /\ Last(a) = b[1]
  \/ Kind(a) = "op" /\ Len(a) = 1 /\ Kind(b) \in {"op", "comment", "line"} /\ (<<Last(a), b[1]>> \in Pairs \cup {<<45, 45>>, <<47, 42>>})

Allowed(a, gap, b) ==
  /\ Fuse(a, b) => gap # <<>>
  /\ Kind(a) = "line" => (gap # <<>> /\ Break(gap[1]))

Init == toks = <<>> /\ text = <<>>
Put(gap, l) ==
  /\ Len(toks) < MaxToks
  /\ toks # <<>> => Allowed(Last(toks), gap, l)
  /\ toks' = Append(toks, l) /\ text' = text \o gap \o l
Next == \E gap \in Gaps, l \in Lexemes : Put(gap, l)
Spec == Init /\ [][Next]_vars

ReadsBack == Tokens(text, 1) = toks
\* and no condition of Allowed is superfluous: without it some text would be read otherwise
Needed == \A l \in Lexemes, gap \in Gaps :
            (toks # <<>> /\ ~Allowed(Last(toks), gap, l)) => Tokens(text \o gap \o l \o <<32>>, 1) # Append(toks, l)
=============================================================================
