------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* SQL scripts: a derivation of a script writes its tokens from left to     *)
(* right and notes where statements end.  `out` are the tokens written,     *)
(* `todo` what is still to be expanded, `cuts` the numbers of tokens after  *)
(* which a statement ended.                                                 *)
(*                                                                         *)
(* The semicolons of routine bodies, and those inside literals, comments    *)
(* and quoted names (the replay writes some into every such token), end     *)
(* nothing.  IF, CASE and WHILE are blocks where a statement may begin and  *)
(* something else elsewhere (IF EXISTS, IF(a, b, c), CASE expressions).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Room          \* longer scripts only take the shortest way to an end

VARIABLES out, todo, cuts
vars == <<out, todo, cuts>>

\* nonterminals and what they may become; the first alternative is the shortest one
Productions == [
  Script  |-> << <<"Stmt">>, <<"Stmt", "Script">>, <<"Last">> >>,
  Stmt    |-> << <<"Plain", "semi", "CUT">>, <<"Routine", "semi", "CUT">>, <<"begin", "semi", "CUT">>, <<"Create", "semi", "CUT">> >>,
  Last    |-> << <<"Plain">>, <<"Routine">> >>,
  Plain   |-> << <<"word">>, <<"word", "Items">>, <<"word", "Items", "Case">>, <<"word", "ifexists", "Items">> >>,
  Items   |-> << <<>>, <<"Item", "Items">> >>,
  Item    |-> << <<"word">>, <<"literal">>, <<"quoted">>, <<"comment">>, <<"lp", "Items", "rp">>, <<"Case">>, <<"ifcall", "lp", "Items", "rp">>,
                 <<"linecomment">> >>,
  Case    |-> << <<"case", "word", "end", "word">>, <<"case", "when", "Items", "then", "Items", "end", "word">>,
                 <<"case", "word", "when", "word", "then", "Item", "else", "Item", "end", "word">> >>,
  Create  |-> << <<"create", "word">>, <<"create", "word", "Items">>, <<"create", "word", "ifexists", "word", "lp", "Items", "rp">> >>,
  Routine |-> << <<"create", "word", "begin", "Body", "end">>, <<"create", "word", "lp", "Items", "rp", "word", "begin", "Body", "end">> >>,
  Body    |-> << <<"Inner", "semi">>, <<"Inner", "semi", "Body">>, <<"declare", "Items", "semi", "Body">> >>,
  Inner   |-> << <<"Plain">>,
                 <<"begin", "Body", "end">>,
                 <<"If", "then", "Body", "endif">>,
                 <<"If", "then", "Body", "else", "Body", "endif">>,
                 <<"while", "Item", "do", "Body", "endwhile">>,
                 <<"label", "loop", "Body", "endloop">>,
                 <<"loop", "Body", "endloop">>,
                 <<"repeat", "Body", "until", "Items", "endrepeat">>,
                 <<"case", "Items", "when", "Item", "then", "Body", "endcase">>,
                 <<"handler", "begin", "Body", "end">>,
                 <<"cursor", "Plain">>,
                 <<"Create">> >>,
  If      |-> << <<"if", "Item">>, <<"ifparen", "lp", "Items", "rp">> >> ]

NonTerminals == DOMAIN Productions

Init == out = <<>> /\ todo = <<"Script">> /\ cuts = <<>>

Expand ==
  /\ todo # <<>> /\ Head(todo) \in NonTerminals
  /\ \E i \in 1..(IF Len(out) + Len(todo) < Room THEN Len(Productions[Head(todo)]) ELSE 1) :
       todo' = Productions[Head(todo)][i] \o Tail(todo)
  /\ UNCHANGED <<out, cuts>>

Cut == /\ todo # <<>> /\ Head(todo) = "CUT"
       /\ cuts' = Append(cuts, Len(out)) /\ todo' = Tail(todo) /\ UNCHANGED out

Write == /\ todo # <<>> /\ Head(todo) \notin NonTerminals \cup {"CUT"}
         /\ out' = Append(out, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED cuts

Next == Expand \/ Cut \/ Write
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What a reader that knows nothing of the derivation can tell from the      *)
(* tokens alone: the open constructs, innermost last.                        *)
Push(s, x) == Append(s, x)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Open(_)
Open(o) ==
  IF o = <<>> THEN <<>>
  ELSE LET s == Open(Pop(o)) t == o[Len(o)]
           start == Len(o) = 1 \/ o[Len(o) - 1] \in {"semi", "begin", "then", "else", "do", "loop", "repeat", "label"}
       IN CASE t = "lp" -> Push(s, "(")
            [] t = "begin" -> IF s = <<>> /\ start THEN s ELSE Push(s, t)
            [] t \in {"if", "ifparen", "while", "loop", "repeat", "case"} -> Push(s, t)
            [] t \in {"rp", "end", "endif", "endwhile", "endloop", "endrepeat", "endcase"} -> Pop(s)
            [] OTHER -> s

\* a statement is cut exactly at the semicolons that stand outside of all constructs
CutsAreTopLevel ==
  \A i \in 1..Len(out) :
    (out[i] = "semi" /\ (i < Len(out) \/ todo = <<>>)) =>
      ((Open(SubSeq(out, 1, i)) = <<>>) <=> (\E j \in 1..Len(cuts) : cuts[j] = i))
Done == todo = <<>>
WellFormed == Done => Open(out) = <<>>

Report == Done => PrintT(ToJson([o |-> out, c |-> cuts]))
=============================================================================
