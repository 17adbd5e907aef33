------------------------------- MODULE SqlGen --------------------------------
(***************************************************************************)
(* Derives statements: `out` is the prefix form written so far, `todo` what *)
(* is still to be derived, `room` what may still be spent.  Every           *)
(* alternative of a nonterminal has a price; the first one is free.         *)
(***************************************************************************)
EXTENDS Sql, TLC, Json

CONSTANTS Root, Room, Free     \* Free: how much of the grammar may be used ("expr": names only as leaves, no queries inside)

VARIABLES out, todo, room
vars == <<out, todo, room>>

Bin(o) == <<1, <<o, "E", "E">>>>
Productions == [
  Stmt   |-> << <<0, <<"Query">>>>, <<0, <<"insert", "name", "cons", "name", "nil", "Rows1">>>>,
                <<0, <<"insert", "name", "cons", "name", "cons", "name", "nil", "Rows2">>>>,
                <<0, <<"insert", "name", "cons", "name", "cons", "name", "cons", "name", "nil", "Rows3">>>>, <<1, <<"insertq", "name", "Names", "QFrom">>>>,
                <<0, <<"update", "name", "Sets", "Where">>>>, <<0, <<"delete", "name", "Where">>>>, <<0, <<"drop", "name">>>>, <<0, <<"dropif", "name">>>> >>,
  \* the statements the analyser of S02 sees beyond those
  Any    |-> << <<0, <<"Stmt">>>>, <<0, <<"Stmt">>>>, <<0, <<"Stmt">>>>, <<0, <<"Stmt">>>>, <<0, <<"Table">>>>, <<0, <<"Other">>>> >>,
  Table  |-> << <<0, <<"create", "name", "Coldefs">>>>, <<0, <<"createif", "name", "Coldefs">>>>, <<0, <<"addcol", "name", "Coldef">>>>, <<0, <<"dropcol", "name", "name">>>>,
                <<0, <<"replace", "name", "cons", "name", "nil", "Rows1">>>>, <<0, <<"replace", "name", "cons", "name", "cons", "name", "nil", "Rows2">>>>,
                <<1, <<"replaceq", "name", "Names", "QFrom">>>> >>,
  Coldefs |-> << <<0, <<"cons", "Coldef", "nil">>>>, <<1, <<"cons", "Coldef", "Coldefs">>>>, <<1, <<"cons", "Coldef", "Coldefs">>>> >>,
  Coldef |-> << <<0, <<"coldef", "name", "Type", "Option">>>> >>,
  Type   |-> << <<0, <<"int">>>>, <<0, <<"bigint">>>>, <<0, <<"varchar", "num">>>>, <<0, <<"decimal", "num", "num">>>>, <<0, <<"text">>>>, <<0, <<"datetime">>>>, <<0, <<"timestamp">>>> >>,
  Option |-> << <<0, <<"none">>>>, <<0, <<"none">>>>, <<1, <<"primary", "Option">>>>, <<1, <<"autoinc", "Option">>>>, <<1, <<"notnullcol", "Option">>>>, <<1, <<"default", "Lit", "Option">>>> >>,
  Other  |-> << <<0, <<"truncate", "name">>>>, <<0, <<"createindex", "name", "name", "name">>>>, <<0, <<"createview", "name", "QFrom">>>>, <<0, <<"createdb", "name">>>>,
                <<0, <<"dropview", "name">>>>, <<0, <<"dropdb", "name">>>>, <<0, <<"dropindex", "name", "name">>>>, <<0, <<"alterdb", "name">>>>, <<0, <<"setvar", "name", "E">>>>, <<0, <<"showtables">>>>, <<0, <<"describe", "name">>>>,
                <<0, <<"usedb", "name">>>>, <<0, <<"begin">>>>, <<0, <<"starttr">>>>, <<0, <<"commit">>>>, <<0, <<"rollback">>>>, <<0, <<"explain", "QFrom">>>>,
                <<0, <<"callproc", "name", "Values">>>>, <<0, <<"rename", "name", "name">>>>, <<0, <<"locktable", "name">>>>, <<0, <<"grant", "name", "name">>>>, <<0, <<"prepare", "name", "str">>>> >>,
  Expr   |-> << <<0, <<"select", "all", "cons", "E", "nil", "cons", "table", "name", "nil", "none", "nil", "none", "nil", "none">>>> >>,
  Pred   |-> << <<0, <<"select", "all", "cons", "star", "nil", "cons", "table", "name", "nil", "E", "nil", "none", "nil", "none">>>> >>,
  Query  |-> << <<0, <<"select", "Quant", "Items", "nil", "none", "nil", "none", "nil", "none">>>>,
                <<0, <<"QFrom">>>>, <<0, <<"QFrom">>>>, <<0, <<"QFrom">>>>,
                <<2, <<"QSet">>>>, <<2, <<"QOrd">>>>, <<3, <<"QWith">>>> >>,
  QWith  |-> << <<0, <<"with", "Ctes", "QBody">>>> >>,
  QBody  |-> << <<0, <<"QFrom">>>>, <<1, <<"QSet">>>>, <<2, <<"QOrd">>>> >>,
  QOrd   |-> << <<0, <<"ordered", "QFrom", "Orders", "Limit">>>>, <<0, <<"ordered", "QSet", "Orders", "Limit">>>>, <<0, <<"ordered", "QSet", "Order", "Limits">>>>,
                <<2, <<"ordered", "QOrd", "Order", "Limits">>>>, <<3, <<"ordered", "QWith", "Order", "Limits">>>> >>,
  QFrom  |-> << <<0, <<"select", "Quant", "Items", "Srcs", "Where", "Groups", "Having", "Orders", "Limits">>>>,
                <<0, <<"select", "all", "Items", "Srcs", "Where", "nil", "none", "nil", "none">>>> >>,
  QSet   |-> << <<0, <<"union", "QFrom", "QFrom">>>>, <<0, <<"unionall", "QFrom", "QFrom">>>>, <<1, <<"union", "QSet", "QFrom">>>>, <<1, <<"unionall", "QSet", "QFrom">>>>,
                <<1, <<"union", "QFrom", "QSet">>>>, <<1, <<"unionall", "QFrom", "QSet">>>>, <<2, <<"union", "QFrom", "QOrd">>>>, <<2, <<"unionall", "QOrd", "QFrom">>>>,
                <<3, <<"union", "QFrom", "QWith">>>>, <<3, <<"unionall", "QWith", "QFrom">>>> >>,
  Ctes   |-> << <<0, <<"cons", "cte", "name", "Query", "nil">>>>, <<1, <<"cons", "cte", "name", "Query", "Ctes">>>> >>,
  Quant  |-> << <<0, <<"all">>>>, <<0, <<"distinct">>>> >>,
  Items  |-> << <<0, <<"cons", "Item", "nil">>>>, <<1, <<"cons", "Item", "Items">>>> >>,
  Item   |-> << <<0, <<"E">>>>, <<0, <<"as", "E", "name">>>>, <<0, <<"star">>>>, <<0, <<"qstar", "name">>>> >>,
  Srcs   |-> << <<0, <<"cons", "Src", "nil">>>>, <<1, <<"cons", "Src", "Srcs">>>>, <<1, <<"cons", "Src", "Joins">>>> >>,
  Joins  |-> << <<0, <<"cons", "Join", "nil">>>>, <<1, <<"cons", "Join", "Joins">>>> >>,
  Src    |-> << <<0, <<"table", "name">>>>, <<0, <<"tableas", "name", "name">>>>, <<2, <<"derived", "Query", "name">>>> >>,
  Kind   |-> << <<0, <<"plain">>>>, <<0, <<"inner">>>>, <<0, <<"left">>>>, <<0, <<"leftouter">>>>, <<0, <<"right">>>>, <<0, <<"rightouter">>>> >>,
  Join   |-> << <<0, <<"joinon", "Kind", "Src", "E">>>>, <<0, <<"joinusing", "Kind", "Src", "Names">>>>, <<0, <<"join", "cross", "Src">>>> >>,
  Where  |-> << <<0, <<"none">>>>, <<0, <<"E">>>>, <<0, <<"E">>>> >>,
  Groups |-> << <<0, <<"nil">>>>, <<1, <<"Exprs">>>> >>,
  Having |-> << <<0, <<"none">>>>, <<1, <<"E">>>> >>,
  Orders |-> << <<0, <<"nil">>>>, <<0, <<"Order">>>> >>,
  Order  |-> << <<0, <<"cons", "Sort", "nil">>>>, <<1, <<"cons", "Sort", "Order">>>> >>,
  Sort   |-> << <<0, <<"E">>>>, <<0, <<"asc", "E">>>>, <<0, <<"desc", "E">>>> >>,
  Limits |-> << <<0, <<"none">>>>, <<0, <<"Limit">>>> >>,
  Limit  |-> << <<0, <<"limit", "num">>>>, <<0, <<"limitoff", "num", "num">>>>, <<0, <<"limitcomma", "num", "num">>>> >>,
  Names  |-> << <<0, <<"cons", "name", "nil">>>>, <<0, <<"cons", "name", "Names">>>> >>,
  Exprs  |-> << <<0, <<"cons", "E", "nil">>>>, <<1, <<"cons", "E", "Exprs">>>> >>,
  Values |-> << <<0, <<"cons", "V", "nil">>>>, <<1, <<"cons", "V", "Values">>>> >>,
  Rows1  |-> << <<0, <<"cons", "Row1", "nil">>>>, <<1, <<"cons", "Row1", "Rows1">>>> >>,
  Rows2  |-> << <<0, <<"cons", "Row2", "nil">>>>, <<1, <<"cons", "Row2", "Rows2">>>> >>,
  Rows3  |-> << <<0, <<"cons", "Row3", "nil">>>>, <<1, <<"cons", "Row3", "Rows3">>>> >>,
  Row1   |-> << <<0, <<"row", "cons", "V", "nil">>>>, <<0, <<"row", "cons", "Lit", "nil">>>> >>,
  Row2   |-> << <<0, <<"row", "cons", "V", "cons", "V", "nil">>>>, <<0, <<"row", "cons", "Lit", "cons", "Lit", "nil">>>> >>,
  Row3   |-> << <<0, <<"row", "cons", "V", "cons", "V", "cons", "V", "nil">>>>, <<0, <<"row", "cons", "Lit", "cons", "Lit", "cons", "Lit", "nil">>>> >>,
  Lit    |-> << <<0, <<"num">>>>, <<0, <<"str">>>>, <<0, <<"null">>>>, <<0, <<"neg", "num">>>>, <<0, <<"true">>>> >>,
  Sets   |-> << <<0, <<"cons", "set", "name", "V", "nil">>>>, <<1, <<"cons", "set", "name", "V", "Sets">>>> >>,
  V      |-> << <<0, <<"null">>>>, <<0, <<"E">>>>, <<0, <<"num">>>>, <<0, <<"neg", "num">>>>, <<0, <<"str">>>> >>,
  Whens  |-> << <<0, <<"cons", "when", "E", "V", "nil">>>>, <<1, <<"cons", "when", "E", "V", "Whens">>>> >>,
  Else   |-> << <<0, <<"none">>>>, <<0, <<"V">>>> >>,
  Leaf   |-> << <<0, <<"name">>>>, <<0, <<"num">>>>, <<0, <<"str">>>>, <<0, <<"qcol", "name", "name">>>>, <<0, <<"true">>>>, <<0, <<"false">>>> >>,
  E      |-> << <<0, <<IF Free THEN "Leaf" ELSE "name">>>>,
                Bin("add"), Bin("sub"), Bin("mul"), Bin("div"), Bin("mod"), Bin("bitand"), Bin("bitor"),
                Bin("eq"), Bin("ne"), Bin("lt"), Bin("le"), Bin("gt"), Bin("ge"), Bin("like"), Bin("notlike"), Bin("and"), Bin("or"),
                <<1, <<"neg", "E">>>>, <<1, <<"bitnot", "E">>>>, <<1, <<"not", "E">>>>, <<1, <<"isnull", "E">>>>, <<1, <<"notnull", "E">>>>,
                <<1, <<"between", "E", "E", "E">>>>, <<1, <<"notbetween", "E", "E", "E">>>>,
                <<1, <<"in", "E", "Values">>>>, <<1, <<"notin", "E", "Values">>>>,
                <<1, <<"call", "fn", "Values">>>> >> \o
             (IF Free THEN [i \in 1..30 |-> <<0, <<"Leaf">>>>] \o << <<0, <<"paren", "E">>>>, <<0, <<"paren", "E">>>>,
                <<1, <<"case", "Whens", "Else">>>>, <<1, <<"call", "fn", "nil">>>>, <<1, <<"call", "fn", "cons", "star", "nil">>>>, <<1, <<"calld", "fn", "Exprs">>>>,
                <<2, <<"inq", "E", "Query">>>>, <<2, <<"notinq", "E", "Query">>>>, <<2, <<"exists", "Query">>>>, <<2, <<"subq", "Query">>>> >>
              ELSE << <<0, <<"neg", "num">>>>, <<1, <<"case", "cons", "when", "E", "E", "nil", "E">>>>,
                      <<1, <<"subq", "select", "all", "cons", "E", "nil", "nil", "none", "nil", "none", "nil", "none">>>> >>) ]
NonTerminals == DOMAIN Productions

\* Without Free the values of lists are one name, so that operators are what is enumerated
Init == out = <<>> /\ todo = <<Root>> /\ room = Room

Alternatives(x) == IF ~Free /\ x = "Values" THEN << <<0, <<"cons", "E", "nil">>>> >> ELSE Productions[x]
Expand ==
  /\ todo # <<>> /\ Head(todo) \in NonTerminals
  /\ \E i \in 1..Len(Alternatives(Head(todo))) :
       LET p == Alternatives(Head(todo))[i] IN
       p[1] <= room /\ todo' = p[2] \o Tail(todo) /\ room' = room - p[1]
  /\ UNCHANGED out
Write == /\ todo # <<>> /\ Head(todo) \notin NonTerminals
         /\ out' = Append(out, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED room
Next == Expand \/ Write
Spec == Init /\ [][Next]_vars

Done == todo = <<>>
\* leaves get the place where they stand as their value; a function name is a name
Prefix == [i \in 1..Len(out) |-> LET s == IF out[i] = "fn" THEN "name" ELSE out[i]
                                 IN <<s, IF s \in {"name", "num", "str"} THEN ToString(i) ELSE "">>]
\* what is written reads as what was meant
ReadsBack == Done => WellFormed(Prefix, 1) /\ Norm(Read(Toks(Tree(Prefix)))) = Norm(Tree(Prefix))
Report == Done => PrintT(ToJson([p |-> out, k |-> Toks(Tree(Prefix))]))
=============================================================================
