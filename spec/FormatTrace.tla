----------------------------- MODULE FormatTrace ----------------------------
(***************************************************************************)
(* Checks what the formatter wrote against the text it was given: both are  *)
(* read token by token (Layout.tla), the formatter may only have changed    *)
(* what its options ask for, and must have changed that.                    *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils, FiniteSets

VARIABLES tr, i, j, n, prev, depth, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
O == T.opts

\* letters whose case is changed one for one
Up(c) == IF c \in 97..122 \/ (c \in 224..254 /\ c # 247) THEN c - 32 ELSE c
Low(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Cased(s, how) ==
  CASE how = "upper" -> [k \in 1..Len(s) |-> Up(s[k])]
    [] how = "lower" -> [k \in 1..Len(s) |-> Low(s[k])]
    [] how = "capitalize" -> [k \in 1..Len(s) |-> IF k = 1 THEN Up(s[k]) ELSE Low(s[k])]
    [] OTHER -> s

In(s, list) == \E k \in 1..Len(list) : list[k] = s
Dotted(s) == \E k \in 1..Len(s) : s[k] = 46
Call(s, e) == At(s, Skip(s, e)) \in {40, 46} \/ (Skip(s, e) < Len(s) /\ Token(s, Skip(s, e)).k \in {"comment", "line"})

\* a keyword keeps its case or gets the one asked for; so does a name; what a word is may depend on the words around it
\* (in keywords of several words only the first is capitalised)
Words(s, e) ==
  LET key == Cased(s, O.kw) name == Cased(s, O.id)
      low == Cased(s, "lower") sure == ~Dotted(s) /\ ~Call(T.src, e)
      keys == IF O.kw = "capitalize" THEN {key, Cased(s, "lower")} ELSE {key}
  IN IF sure /\ In(low, T.core) THEN keys
     ELSE IF sure /\ In(low, T.plain) THEN {name}
     ELSE keys \cup {name, s}

\* texts apart from the amount of blanks in them
RECURSIVE Squeeze(_, _)
Squeeze(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF Blank(s[k]) THEN LET m == Skip(s, k) IN (IF m > Len(s) THEN <<>> ELSE <<32>>) \o Squeeze(s, m)
  ELSE <<s[k]>> \o Squeeze(s, k + 1)

\* the beginning of a literal, with no escaped character torn apart
RECURSIVE Prefix(_, _, _)
Prefix(s, k, w) ==
  IF w = 0 \/ k > Len(s) THEN <<>>
  ELSE IF s[k] = 92 \/ (s[k] = 39 /\ At(s, k + 1) = 39)
       THEN (IF w = 1 THEN <<>> ELSE SubSeq(s, k, k + 1) \o Prefix(s, k + 2, w - 2))
       ELSE <<s[k]>> \o Prefix(s, k + 1, w - 1)
Short(s) ==
  LET inner == SubSeq(s, 2, Len(s) - 1)
  IN IF O.width = 0 \/ Len(inner) <= O.width THEN s ELSE <<39>> \o Prefix(inner, 1, O.width) \o O.tail \o <<39>>

Same(k, s, e, u) ==
  CASE k = "word" -> IF Dotted(s) /\ O.kw \o O.id # "" THEN Cased(u, "lower") = Cased(s, "lower") ELSE u \in Words(s, e)
    [] k = "quoted" -> u \in {s, Cased(s, O.id)}
    [] k = "string" -> u = Short(s)
    [] k \in {"comment", "line"} -> Squeeze(u, 1) = Squeeze(s, 1)
    [] OTHER -> u = s

Comment(k) == k \in {"comment", "line"}
\* operators that follow each other may be written as one
Signs == {33, 37, 38, 43, 45, 47, 60, 61, 62, 94, 124, 126}
Operators == {<<43>>, <<47>>, <<61>>, <<60>>, <<62>>, <<60, 61>>, <<62, 61>>, <<60, 62>>, <<33, 61>>}

\* what is wrong with the token from b to e of the output that stands for a token of kind k; from: where the one before ended;
\* gap: the blanks before it in the source (those within a keyword of several words stay)
Layouted(k, b, e, from, gap) ==
  CASE O.single /\ ~Comment(k) /\ ~Comment(prev) /\ prev # "" /\ b - from > 1 /\ ~(k = "word" /\ prev = "word" /\ gap >= b - from) -> "several blanks"
    [] O.ops /\ SubSeq(T.out, b, e - 1) \in Operators /\ from > 1 /\ ~((b > from \/ T.out[b - 1] \in Signs) /\ At(T.out, e) \in Signs \cup {9, 10, 13, 32}) -> "no blank around an operator"
    [] O.lines /\ depth = 0 /\ k = "word" /\ In(Cased(SubSeq(T.out, b, e - 1), "lower"), T.heads) /\ from > 1 /\ ~(\E x \in from..b - 1 : Break(T.out[x])) -> "no line of its own"
    [] OTHER -> ""

FormatInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ j = 1 /\ n = 0 /\ prev = "" /\ depth = 0 /\ verdict = "run" /\ Init

Say(b) == /\ verdict' = IF b = "" THEN "ok" ELSE b
          /\ IF b = "" THEN PrintT(<<"GOOD", T.id, n>>) ELSE PrintT(<<"BAD", T.id, n, b>>)
          /\ UNCHANGED <<i, j, n, prev, depth>>

Next2 ==
  /\ verdict = "run" /\ UNCHANGED <<tr, vars>>
  /\ IF T.failed THEN Say("refused")
     ELSE LET a == Skip(T.src, i) b == Skip(T.out, j)
          IN IF a > Len(T.src)
             THEN Say(IF b <= Len(T.out) THEN "more than there was" ELSE "")
             ELSE LET x == Token(T.src, a) s == SubSeq(T.src, a, x.e - 1)
                  IN IF O.strip /\ Comment(x.k)
                     THEN /\ i' = x.e /\ n' = n + 1 /\ UNCHANGED <<j, prev, depth, verdict>>
                     ELSE IF b > Len(T.out) THEN Say("less than there was")
                     ELSE LET y == Token(T.out, b) u == SubSeq(T.out, b, y.e - 1)
                              bad == IF x.k # y.k \/ ~Same(x.k, s, x.e, u) THEN "another token" ELSE Layouted(x.k, b, y.e, j, a - i)
                          IN IF bad # "" THEN Say(bad)
                             ELSE /\ i' = x.e /\ j' = y.e /\ n' = n + 1 /\ prev' = x.k
                                /\ depth' = depth + (IF s = <<40>> THEN 1 ELSE IF s = <<41>> THEN -1 ELSE 0) /\ UNCHANGED verdict
TraceSpec == FormatInit /\ [][Next2]_<<vars, tr, i, j, n, prev, depth, verdict>>
=============================================================================
