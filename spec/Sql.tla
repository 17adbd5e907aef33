--------------------------------- MODULE Sql ---------------------------------
(***************************************************************************)
(* SQL statements: their trees, how a tree is written as tokens (Toks: with *)
(* the fewest parentheses that precedence allows) and how tokens are read   *)
(* back (Read: MySQL's precedence).                                         *)
(*                                                                         *)
(* A tree is a record [o |-> symbol, v |-> value, a |-> children]; its      *)
(* prefix form is the sequence of <<symbol, value>> pairs in pre-order      *)
(* (every symbol has a fixed number of children; lists are cons/nil).       *)
(* A token is a pair <<kind, value>>; the value is "" but for names,        *)
(* numbers and strings.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Arities == [
  name |-> 0, num |-> 0, str |-> 0, null |-> 0, true |-> 0, false |-> 0, star |-> 0, none |-> 0, nil |-> 0, all |-> 0, distinct |-> 0,
  inner |-> 0, plain |-> 0, left |-> 0, leftouter |-> 0, right |-> 0, rightouter |-> 0, cross |-> 0,
  qcol |-> 2, qstar |-> 1, paren |-> 1,
  add |-> 2, sub |-> 2, mul |-> 2, div |-> 2, mod |-> 2, bitand |-> 2, bitor |-> 2, bitnot |-> 1, neg |-> 1,
  eq |-> 2, ne |-> 2, lt |-> 2, le |-> 2, gt |-> 2, ge |-> 2, like |-> 2, notlike |-> 2,
  between |-> 3, notbetween |-> 3, in |-> 2, notin |-> 2, inq |-> 2, notinq |-> 2, isnull |-> 1, notnull |-> 1,
  not |-> 1, and |-> 2, or |-> 2, exists |-> 1, subq |-> 1, case |-> 2, when |-> 2, call |-> 2, calld |-> 2,
  cons |-> 2, as |-> 2, asc |-> 1, desc |-> 1,
  table |-> 1, tableas |-> 2, derived |-> 2, joinon |-> 3, joinusing |-> 3, join |-> 2,
  select |-> 8, union |-> 2, unionall |-> 2, ordered |-> 3, limit |-> 1, limitoff |-> 2, limitcomma |-> 2, with |-> 2, cte |-> 2,
  insert |-> 3, insertq |-> 3, row |-> 1, update |-> 3, set |-> 2, delete |-> 2, drop |-> 1, dropif |-> 1,
  replace |-> 3, replaceq |-> 3, create |-> 2, createif |-> 2, coldef |-> 3, int |-> 0, bigint |-> 0, varchar |-> 1, decimal |-> 2, text |-> 0, datetime |-> 0, timestamp |-> 0, autoinc |-> 1, primary |-> 1, notnullcol |-> 1, default |-> 2,
  addcol |-> 2, dropcol |-> 2,
  truncate |-> 1, createindex |-> 3, createview |-> 2, createdb |-> 1, dropview |-> 1, dropdb |-> 1, dropindex |-> 2, setvar |-> 2, showtables |-> 0, describe |-> 1,
  usedb |-> 1, begin |-> 0, starttr |-> 0, commit |-> 0, rollback |-> 0, explain |-> 1, callproc |-> 2, rename |-> 2, locktable |-> 1, grant |-> 2, alterdb |-> 1, prepare |-> 2 ]

Node(o, a) == [o |-> o, v |-> "", a |-> a]
Leaf(o, v) == [o |-> o, v |-> v, a |-> <<>>]
Nil == Node("nil", <<>>)
None == Node("none", <<>>)
Cons(h, t) == Node("cons", <<h, t>>)

----------------------------------------------------------------------------
(* prefix form *)
RECURSIVE DecodeAt(_, _), DecodeN(_, _, _)
DecodeAt(p, i) ==              \* [t: tree, i: position after it]
  LET kids == DecodeN(p, i + 1, Arities[p[i][1]])
  IN [t |-> [o |-> p[i][1], v |-> p[i][2], a |-> kids.a], i |-> kids.i]
DecodeN(p, i, n) ==
  IF n = 0 THEN [a |-> <<>>, i |-> i]
  ELSE LET h == DecodeAt(p, i) r == DecodeN(p, h.i, n - 1) IN [a |-> <<h.t>> \o r.a, i |-> r.i]
Tree(p) == DecodeAt(p, 1).t

RECURSIVE WellFormed(_, _)     \* a prefix form of exactly n trees
WellFormed(p, n) ==
  IF p = <<>> THEN n = 0
  ELSE n > 0 /\ Head(p)[1] \in DOMAIN Arities /\ WellFormed(Tail(p), n - 1 + Arities[Head(p)[1]])

----------------------------------------------------------------------------
(* What a statement denotes, up to redundant parentheses and the            *)
(* associativity of + * AND OR.                                             *)
Assoc == {"add", "mul", "and", "or"}
RECURSIVE Norm(_), Operands(_, _), NormAll(_, _)
Operands(n, o) == IF n.o = o THEN Operands(n.a[1], o) \o Operands(n.a[2], o) ELSE <<n>>
RECURSIVE FoldL(_, _)
FoldL(s, o) == IF Len(s) = 1 THEN s[1] ELSE Node(o, <<FoldL(SubSeq(s, 1, Len(s) - 1), o), s[Len(s)]>>)
NormAll(a, i) == IF i > Len(a) THEN <<>> ELSE <<Norm(a[i])>> \o NormAll(a, i + 1)
Norm(n) ==
  IF n.o = "paren" THEN Norm(n.a[1])
  ELSE IF n.o = "notnull" THEN Node("not", <<Node("isnull", <<Norm(n.a[1])>>)>>)
  ELSE LET m == [n EXCEPT !.a = NormAll(n.a, 1)]
       IN CASE n.o \in Assoc -> FoldL(Operands(m, n.o), n.o)
            \* a list with one subquery in it is that subquery
            [] n.o \in {"in", "notin"} /\ m.a[2].a[1].o = "subq" /\ m.a[2].a[2].o = "nil" -> Node(n.o \o "q", <<m.a[1], m.a[2].a[1].a[1]>>)
            \* a query in parentheses without ORDER BY and LIMIT of its own takes those that follow
            [] n.o = "ordered" /\ m.a[1].o = "select" /\ m.a[1].a[7].o = "nil" /\ m.a[1].a[8].o = "none" -> [m.a[1] EXCEPT !.a[7] = m.a[2], !.a[8] = m.a[3]]
            [] n.o = "neg" /\ m.a[1].o = "num" /\ m.a[1].v = "0" -> m.a[1]
            [] OTHER -> m

\* The columns of an INSERT are named: their order does not matter.
RECURSIVE Items(_)
Items(l) == IF l.o = "cons" THEN <<l.a[1]>> \o Items(l.a[2]) ELSE <<>>
Columns(t) ==
  LET c == Items(t.a[2]) r == Items(t.a[3]) IN
  {<<c[i], [j \in 1..Len(r) |-> Items(r[j].a[1])[i]]>> : i \in 1..Len(c)}
Square(t) == LET r == Items(t.a[3]) IN \A j \in 1..Len(r) : Len(Items(r[j].a[1])) = Len(Items(t.a[2]))
Same(x, y) ==
  \/ x = y
  \/ /\ x.o = "insert" /\ y.o = "insert" /\ Square(x) /\ Square(y)
     /\ x.a[1] = y.a[1] /\ Len(Items(x.a[2])) = Len(Items(y.a[2])) /\ Columns(x) = Columns(y)

----------------------------------------------------------------------------
(* writing *)
Tight == 11
Cmp == 4        \* comparisons and IS NULL group to the left
Pred == 5       \* BETWEEN, IN, LIKE: their operands are arithmetic
Level(o) ==
  CASE o = "or" -> 1 [] o = "and" -> 2 [] o = "not" -> 3
    [] o \in {"eq", "ne", "lt", "le", "gt", "ge", "isnull", "notnull"} -> Cmp
    [] o \in {"like", "notlike", "between", "notbetween", "in", "notin", "inq", "notinq"} -> Pred
    [] o = "bitor" -> 6 [] o = "bitand" -> 7
    [] o \in {"add", "sub"} -> 8 [] o \in {"mul", "div", "mod"} -> 9 [] o \in {"neg", "bitnot"} -> 10
    [] OTHER -> Tight

Op == [or |-> "or", and |-> "and", eq |-> "=", ne |-> "<>", lt |-> "<", le |-> "<=", gt |-> ">", ge |-> ">=", like |-> "like",
       bitor |-> "|", bitand |-> "&", add |-> "+", sub |-> "-", mul |-> "*", div |-> "/", mod |-> "%"]
JoinWords == [plain |-> <<"join">>, inner |-> <<"inner", "join">>, left |-> <<"left", "join">>, leftouter |-> <<"left", "outer", "join">>,
              right |-> <<"right", "join">>, rightouter |-> <<"right", "outer", "join">>, cross |-> <<"cross", "join">>]

K(s) == <<<<s, "">>>>
RECURSIVE Ks(_)
Ks(s) == IF s = <<>> THEN <<>> ELSE K(Head(s)) \o Ks(Tail(s))
Par(t) == K("(") \o t \o K(")")

RECURSIVE W(_, _), Plain(_), Sep(_), Whens(_), WQ(_), WSrcs(_, _), Clause(_, _), Order(_), Limit(_), Operand(_), Rows(_), Ctes(_)
W(n, lvl) == IF Level(n.o) < lvl THEN Par(Plain(n)) ELSE Plain(n)        \* an expression where operators below lvl need parentheses
Sep(l) ==                                                                  \* comma-separated
  IF l.o = "nil" THEN <<>>
  ELSE Plain(l.a[1]) \o (IF l.a[2].o = "nil" THEN <<>> ELSE K(",") \o Sep(l.a[2]))
Whens(l) == IF l.o = "nil" THEN <<>>
            ELSE K("when") \o Plain(l.a[1].a[1]) \o K("then") \o Plain(l.a[1].a[2]) \o Whens(l.a[2])
Ctes(l) == IF l.o = "nil" THEN <<>>
           ELSE Plain(l.a[1].a[1]) \o K("as") \o Par(WQ(l.a[1].a[2])) \o (IF l.a[2].o = "nil" THEN <<>> ELSE K(",") \o Ctes(l.a[2]))
Rows(l) == IF l.o = "nil" THEN <<>>
           ELSE Par(Sep(l.a[1].a[1])) \o (IF l.a[2].o = "nil" THEN <<>> ELSE K(",") \o Rows(l.a[2]))
Clause(words, n) == IF n.o = "none" THEN <<>> ELSE Ks(words) \o Plain(n)
Order(l) == IF l.o = "nil" THEN <<>> ELSE K("order") \o K("by") \o Sep(l)
Limit(n) ==
  CASE n.o = "none" -> <<>>
    [] n.o = "limit" -> K("limit") \o Plain(n.a[1])
    [] n.o = "limitoff" -> K("limit") \o Plain(n.a[1]) \o K("offset") \o Plain(n.a[2])
    [] n.o = "limitcomma" -> K("limit") \o Plain(n.a[1]) \o K(",") \o Plain(n.a[2])
WSrcs(l, first) ==
  IF l.o = "nil" THEN <<>>
  ELSE (IF l.a[1].o \in {"join", "joinon", "joinusing"} \/ first THEN <<>> ELSE K(",")) \o Plain(l.a[1]) \o WSrcs(l.a[2], FALSE)
Operand(q) ==       \* of a set operation
  IF q.o = "select" /\ q.a[7].o = "nil" /\ q.a[8].o = "none" THEN WQ(q) ELSE Par(WQ(q))
WQ(q) ==
  CASE q.o = "select" ->
         K("select") \o (IF q.a[1].o = "distinct" THEN K("distinct") ELSE <<>>) \o Sep(q.a[2])
         \o (IF q.a[3].o = "nil" THEN <<>> ELSE K("from") \o WSrcs(q.a[3], TRUE))
         \o Clause(<<"where">>, q.a[4])
         \o (IF q.a[5].o = "nil" THEN <<>> ELSE K("group") \o K("by") \o Sep(q.a[5]))
         \o Clause(<<"having">>, q.a[6]) \o Order(q.a[7]) \o Limit(q.a[8])
    [] q.o \in {"union", "unionall"} ->
         (IF q.a[1].o \in {"union", "unionall"} THEN WQ(q.a[1]) ELSE Operand(q.a[1]))
         \o K("union") \o (IF q.o = "unionall" THEN K("all") ELSE <<>>) \o Operand(q.a[2])
    [] q.o = "ordered" -> (IF q.a[1].o \in {"union", "unionall"} THEN WQ(q.a[1]) ELSE Operand(q.a[1])) \o Order(q.a[2]) \o Limit(q.a[3])
    [] q.o = "with" -> K("with") \o Ctes(q.a[1]) \o WQ(q.a[2])

Plain(n) ==
  LET l == Level(n.o) A == n.a IN
  CASE n.o \in {"name", "num", "str"} -> <<<<n.o, n.v>>>>
    [] n.o \in {"null", "true", "false"} -> K(n.o)
    [] n.o = "star" -> K("*")
    [] n.o = "paren" -> Par(Plain(A[1]))
    [] n.o = "qcol" -> Plain(A[1]) \o K(".") \o Plain(A[2])
    [] n.o = "qstar" -> Plain(A[1]) \o K(".") \o K("*")
    [] n.o = "neg" -> K("-") \o W(A[1], 10)
    [] n.o = "bitnot" -> K("~") \o W(A[1], 10)
    [] n.o = "not" -> K("not") \o W(A[1], 3)
    [] n.o \in {"and", "or", "eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "mod", "bitand", "bitor"} -> W(A[1], l) \o K(Op[n.o]) \o W(A[2], l + 1)
    [] n.o = "like" -> W(A[1], Pred + 1) \o K("like") \o W(A[2], Pred + 1)
    [] n.o = "notlike" -> W(A[1], Pred + 1) \o K("not") \o K("like") \o W(A[2], Pred + 1)
    [] n.o \in {"between", "notbetween"} ->
         W(A[1], Pred + 1) \o (IF n.o = "between" THEN <<>> ELSE K("not")) \o K("between") \o W(A[2], Pred + 1) \o K("and") \o W(A[3], Pred + 1)
    [] n.o \in {"in", "notin"} -> W(A[1], Pred + 1) \o (IF n.o = "in" THEN <<>> ELSE K("not")) \o K("in") \o Par(Sep(A[2]))
    [] n.o \in {"inq", "notinq"} -> W(A[1], Pred + 1) \o (IF n.o = "inq" THEN <<>> ELSE K("not")) \o K("in") \o Par(WQ(A[2]))
    [] n.o = "isnull" -> W(A[1], Cmp) \o K("is") \o K("null")
    [] n.o = "notnull" -> W(A[1], Cmp) \o K("is") \o K("not") \o K("null")
    [] n.o = "exists" -> K("exists") \o Par(WQ(A[1]))
    [] n.o = "subq" -> Par(WQ(A[1]))
    [] n.o = "case" -> K("case") \o Whens(A[1]) \o (IF A[2].o = "none" THEN <<>> ELSE K("else") \o Plain(A[2])) \o K("end")
    [] n.o = "call" -> Plain(A[1]) \o Par(Sep(A[2]))
    [] n.o = "calld" -> Plain(A[1]) \o Par(K("distinct") \o Sep(A[2]))
    [] n.o = "as" -> Plain(A[1]) \o K("as") \o Plain(A[2])
    [] n.o = "asc" -> Plain(A[1]) \o K("asc")
    [] n.o = "desc" -> Plain(A[1]) \o K("desc")
    [] n.o = "table" -> Plain(A[1])
    [] n.o = "tableas" -> Plain(A[1]) \o K("as") \o Plain(A[2])
    [] n.o = "derived" -> Par(WQ(A[1])) \o K("as") \o Plain(A[2])
    [] n.o = "join" -> Ks(JoinWords[A[1].o]) \o Plain(A[2])
    [] n.o = "joinon" -> Ks(JoinWords[A[1].o]) \o Plain(A[2]) \o K("on") \o Plain(A[3])
    [] n.o = "joinusing" -> Ks(JoinWords[A[1].o]) \o Plain(A[2]) \o K("using") \o Par(Sep(A[3]))
    [] n.o \in {"select", "union", "unionall", "ordered", "with"} -> WQ(n)
    [] n.o = "insert" -> K("insert") \o K("into") \o Plain(A[1]) \o Par(Sep(A[2])) \o K("values") \o Rows(A[3])
    [] n.o = "insertq" -> K("insert") \o K("into") \o Plain(A[1]) \o Par(Sep(A[2])) \o WQ(A[3])
    [] n.o = "update" -> K("update") \o Plain(A[1]) \o K("set") \o Sep(A[2]) \o Clause(<<"where">>, A[3])
    [] n.o = "set" -> Plain(A[1]) \o K("=") \o Plain(A[2])
    [] n.o = "delete" -> K("delete") \o K("from") \o Plain(A[1]) \o Clause(<<"where">>, A[2])
    [] n.o = "drop" -> K("drop") \o K("table") \o Plain(A[1])
    [] n.o = "dropif" -> K("drop") \o K("table") \o K("if") \o K("exists") \o Plain(A[1])
    [] n.o = "replace" -> K("replace") \o K("into") \o Plain(A[1]) \o Par(Sep(A[2])) \o K("values") \o Rows(A[3])
    [] n.o = "replaceq" -> K("replace") \o K("into") \o Plain(A[1]) \o Par(Sep(A[2])) \o WQ(A[3])
    [] n.o = "create" -> K("create") \o K("table") \o Plain(A[1]) \o Par(Sep(A[2]))
    [] n.o = "createif" -> Ks(<<"create", "table", "if", "not", "exists">>) \o Plain(A[1]) \o Par(Sep(A[2]))
    [] n.o = "coldef" -> Plain(A[1]) \o Plain(A[2]) \o Plain(A[3])
    [] n.o = "none" -> <<>>
    [] n.o \in {"int", "bigint", "text", "datetime", "timestamp", "commit", "rollback", "begin"} -> K(n.o)
    [] n.o = "varchar" -> K("varchar") \o Par(Plain(A[1]))
    [] n.o = "decimal" -> K("decimal") \o Par(Plain(A[1]) \o K(",") \o Plain(A[2]))
    [] n.o = "autoinc" -> K("auto_increment") \o Plain(A[1])
    [] n.o = "primary" -> Ks(<<"primary", "key">>) \o Plain(A[1])
    [] n.o = "notnullcol" -> Ks(<<"not", "null">>) \o Plain(A[1])
    [] n.o = "default" -> K("default") \o Plain(A[1]) \o Plain(A[2])
    [] n.o = "addcol" -> Ks(<<"alter", "table">>) \o Plain(A[1]) \o Ks(<<"add", "column">>) \o Plain(A[2])
    [] n.o = "dropcol" -> Ks(<<"alter", "table">>) \o Plain(A[1]) \o Ks(<<"drop", "column">>) \o Plain(A[2])
    [] n.o = "truncate" -> Ks(<<"truncate", "table">>) \o Plain(A[1])
    [] n.o = "createindex" -> Ks(<<"create", "index">>) \o Plain(A[1]) \o K("on") \o Plain(A[2]) \o Par(Plain(A[3]))
    [] n.o = "createview" -> Ks(<<"create", "view">>) \o Plain(A[1]) \o K("as") \o Plain(A[2])
    [] n.o = "createdb" -> Ks(<<"create", "database">>) \o Plain(A[1])
    [] n.o = "dropview" -> Ks(<<"drop", "view">>) \o Plain(A[1])
    [] n.o = "dropdb" -> Ks(<<"drop", "database">>) \o Plain(A[1])
    [] n.o = "dropindex" -> Ks(<<"drop", "index">>) \o Plain(A[1]) \o K("on") \o Plain(A[2])
    [] n.o = "alterdb" -> Ks(<<"alter", "database">>) \o Plain(A[1])
    [] n.o = "setvar" -> K("set") \o Plain(A[1]) \o K("=") \o Plain(A[2])
    [] n.o = "showtables" -> Ks(<<"show", "tables">>)
    [] n.o = "describe" -> K("describe") \o Plain(A[1])
    [] n.o = "usedb" -> K("use") \o Plain(A[1])
    [] n.o = "starttr" -> Ks(<<"start", "transaction">>)
    [] n.o = "explain" -> K("explain") \o Plain(A[1])
    [] n.o = "callproc" -> K("call") \o Plain(A[1]) \o Par(Sep(A[2]))
    [] n.o = "rename" -> Ks(<<"rename", "table">>) \o Plain(A[1]) \o K("to") \o Plain(A[2])
    [] n.o = "locktable" -> Ks(<<"lock", "tables">>) \o Plain(A[1]) \o K("write")
    [] n.o = "grant" -> Ks(<<"grant", "select", "on">>) \o Plain(A[1]) \o K("to") \o Plain(A[2])
    [] n.o = "prepare" -> K("prepare") \o Plain(A[1]) \o K("from") \o Plain(A[2])
Toks(n) == Plain(n)

----------------------------------------------------------------------------
(* reading: every reader gets the tokens and a position and returns the tree *)
(* it read and the position after it; [o |-> "error"] spoils the whole.      *)
Err(i) == [t |-> Leaf("error", ""), i |-> i]
At(s, i) == IF i <= Len(s) THEN s[i][1] ELSE "eof"
Ret(t, i) == [t |-> t, i |-> i]
\* the tree r.t with the token k after it
Close(s, r, k) == IF At(s, r.i) = k THEN Ret(r.t, r.i + 1) ELSE Err(r.i)
Wrap(o, r) == Ret(Node(o, <<r.t>>), r.i)

BinOps == [x \in {"or", "and", "=", "<>", "!=", "<", "<=", ">", ">=", "like", "|", "&", "+", "-", "*", "/", "%"} |->
  CASE x = "or" -> "or" [] x = "and" -> "and" [] x = "=" -> "eq" [] x \in {"<>", "!="} -> "ne" [] x = "<" -> "lt" [] x = "<=" -> "le"
    [] x = ">" -> "gt" [] x = ">=" -> "ge" [] x = "like" -> "like" [] x = "|" -> "bitor" [] x = "&" -> "bitand" [] x = "+" -> "add"
    [] x = "-" -> "sub" [] x = "*" -> "mul" [] x = "/" -> "div" [] x = "%" -> "mod"]

RECURSIVE Match(_, _, _)                    \* the position of the parenthesis that closes depth d
Match(s, i, d) == IF i > Len(s) THEN i
                  ELSE IF At(s, i) = "(" THEN Match(s, i + 1, d + 1)
                  ELSE IF At(s, i) = ")" THEN (IF d = 1 THEN i ELSE Match(s, i + 1, d - 1))
                  ELSE Match(s, i + 1, d)
QueryGoesOn == {"union", "order", "limit", ")"}
RECURSIVE QueryAt(_, _)                     \* does a query begin here (not an expression in parentheses)?
QueryAt(s, i) ==
  \/ At(s, i) \in {"select", "with"}
  \/ At(s, i) = "(" /\ QueryAt(s, i + 1) /\ At(s, Match(s, i + 1, 1) + 1) \in QueryGoesOn

RECURSIVE RE(_, _, _), RPrefix(_, _), RLoop(_, _, _), RAtom(_, _), RList(_, _, _), RWhens(_, _), RQ(_, _), RSet(_, _), RTerm(_, _), RCore(_, _),
          RItem(_, _, _), RSrcs(_, _, _), RSrc(_, _), ROrder(_, _), RLimit(_, _), RCtes(_, _), RRows(_, _), RJoin(_, _), RCall(_, _)

RName(s, i) == IF At(s, i) = "name" THEN Ret(Leaf("name", s[i][2]), i + 1) ELSE Err(i)
RNum(s, i) == IF At(s, i) = "num" THEN Ret(Leaf("num", s[i][2]), i + 1) ELSE Err(i)

\* a comma-separated list of things of a kind
RItem(s, i, what) ==
  CASE what = "name" -> RName(s, i)
    [] what = "expr" -> RE(s, i, 1)
    [] what = "item" -> IF At(s, i) = "*" THEN Ret(Leaf("star", ""), i + 1)
                        ELSE LET e == RE(s, i, 1) IN
                             IF At(s, e.i) = "as" THEN LET n == RName(s, e.i + 1) IN Ret(Node("as", <<e.t, n.t>>), n.i)
                             ELSE IF At(s, e.i) = "name" THEN LET n == RName(s, e.i) IN Ret(Node("as", <<e.t, n.t>>), n.i)
                             ELSE e
    [] what = "sort" -> LET e == RE(s, i, 1) IN IF At(s, e.i) \in {"asc", "desc"} THEN Ret(Node(At(s, e.i), <<e.t>>), e.i + 1) ELSE e
    [] what = "set" -> LET n == RName(s, i) IN
                       IF At(s, n.i) # "=" THEN Err(i) ELSE LET e == RE(s, n.i + 1, 1) IN Ret(Node("set", <<n.t, e.t>>), e.i)
RList(s, i, what) ==
  LET h == RItem(s, i, what) IN
  IF At(s, h.i) = "," THEN LET r == RList(s, h.i + 1, what) IN Ret(Cons(h.t, r.t), r.i) ELSE Ret(Cons(h.t, Nil), h.i)

RE(s, i, lvl) == RLoop(s, RPrefix(s, i), lvl)
RPrefix(s, i) ==
  CASE At(s, i) = "not" -> Wrap("not", RE(s, i + 1, 3))
    [] At(s, i) = "-" -> Wrap("neg", RPrefix(s, i + 1))
    [] At(s, i) = "~" -> Wrap("bitnot", RPrefix(s, i + 1))
    [] OTHER -> RAtom(s, i)
RLoop(s, l, lvl) ==
  LET k == At(s, l.i)
      two(o, r) == RLoop(s, Ret(Node(o, <<l.t, r.t>>), r.i), lvl)
      neg == k = "not"
      j == IF neg THEN l.i + 1 ELSE l.i
      m == At(s, j)
      Not(o) == IF neg THEN "not" \o o ELSE o
  IN IF k \in DOMAIN BinOps /\ Level(BinOps[k]) >= lvl THEN two(BinOps[k], RE(s, l.i + 1, Level(BinOps[k]) + 1))
     ELSE IF lvl > Pred THEN l
     ELSE IF neg /\ m = "like" THEN two("notlike", RE(s, j + 1, Pred + 1))
     ELSE IF m = "between" THEN
       LET x == RE(s, j + 1, Pred + 1) IN
       IF At(s, x.i) # "and" THEN Err(x.i)
       ELSE LET y == RE(s, x.i + 1, Pred + 1) IN RLoop(s, Ret(Node(Not("between"), <<l.t, x.t, y.t>>), y.i), lvl)
     ELSE IF m = "in" /\ At(s, j + 1) = "(" THEN
       (IF QueryAt(s, j + 2) THEN two(Not("inq"), Close(s, RQ(s, j + 2), ")"))
        ELSE two(Not("in"), Close(s, RList(s, j + 2, "expr"), ")")))
     ELSE IF k = "is" /\ lvl <= Cmp THEN
       (IF At(s, l.i + 1) = "null" THEN RLoop(s, Ret(Node("isnull", <<l.t>>), l.i + 2), lvl)
        ELSE IF At(s, l.i + 1) = "not" /\ At(s, l.i + 2) = "null" THEN RLoop(s, Ret(Node("notnull", <<l.t>>), l.i + 3), lvl)
        ELSE Err(l.i))
     ELSE l
RCall(s, i) ==           \* a name and "("
  LET f == Leaf("name", s[i][2]) j == i + 2 IN
  CASE At(s, j) = ")" -> Ret(Node("call", <<f, Nil>>), j + 1)
    [] At(s, j) = "*" /\ At(s, j + 1) = ")" -> Ret(Node("call", <<f, Cons(Leaf("star", ""), Nil)>>), j + 2)
    [] At(s, j) = "distinct" -> LET r == Close(s, RList(s, j + 1, "expr"), ")") IN Ret(Node("calld", <<f, r.t>>), r.i)
    [] OTHER -> LET r == Close(s, RList(s, j, "expr"), ")") IN Ret(Node("call", <<f, r.t>>), r.i)
RAtom(s, i) ==
  LET k == At(s, i) IN
  CASE k = "name" /\ At(s, i + 1) = "(" -> RCall(s, i)
    [] k = "name" /\ At(s, i + 1) = "." /\ At(s, i + 2) = "*" -> Ret(Node("qstar", <<Leaf("name", s[i][2])>>), i + 3)
    [] k = "name" /\ At(s, i + 1) = "." -> LET n == RName(s, i + 2) IN Ret(Node("qcol", <<Leaf("name", s[i][2]), n.t>>), n.i)
    [] k \in {"name", "num", "str"} -> Ret(Leaf(k, s[i][2]), i + 1)
    [] k \in {"null", "true", "false"} -> Ret(Leaf(k, ""), i + 1)
    [] k = "exists" /\ At(s, i + 1) = "(" -> Wrap("exists", Close(s, RQ(s, i + 2), ")"))
    [] k = "(" -> IF QueryAt(s, i + 1) THEN Wrap("subq", Close(s, RQ(s, i + 1), ")")) ELSE Close(s, RE(s, i + 1, 1), ")")
    [] k = "case" -> LET w == RWhens(s, i + 1) IN
                     IF At(s, w.i) = "else" THEN LET e == Close(s, RE(s, w.i + 1, 1), "end") IN Ret(Node("case", <<w.t, e.t>>), e.i)
                     ELSE IF At(s, w.i) = "end" THEN Ret(Node("case", <<w.t, None>>), w.i + 1) ELSE Err(w.i)
    [] OTHER -> Err(i)
RWhens(s, i) ==
  IF At(s, i) # "when" THEN Ret(Nil, i)
  ELSE LET c == Close(s, RE(s, i + 1, 1), "then") v == RE(s, c.i, 1) r == RWhens(s, v.i)
       IN Ret(Cons(Node("when", <<c.t, v.t>>), r.t), r.i)

ROrder(s, i) == IF At(s, i) = "order" /\ At(s, i + 1) = "by" THEN RList(s, i + 2, "sort") ELSE Ret(Nil, i)
RLimit(s, i) ==
  IF At(s, i) # "limit" THEN Ret(None, i)
  ELSE LET n == RNum(s, i + 1) IN
       IF At(s, n.i) \in {"offset", ","} THEN
         LET m == RNum(s, n.i + 1) IN Ret(Node(IF At(s, n.i) = "," THEN "limitcomma" ELSE "limitoff", <<n.t, m.t>>), m.i)
       ELSE Wrap("limit", n)
RSrc(s, i) ==
  LET b == IF At(s, i) = "(" THEN Close(s, RQ(s, i + 1), ")") ELSE RName(s, i)
      j == IF At(s, b.i) = "as" THEN b.i + 1 ELSE b.i
      d == At(s, i) = "("
  IN IF At(s, j) = "name" THEN Ret(Node(IF d THEN "derived" ELSE "tableas", <<b.t, Leaf("name", s[j][2])>>), j + 1)
     ELSE IF j # b.i \/ d THEN Err(j) ELSE Wrap("table", b)
\* the join words at i: [k |-> kind, n |-> how many], n = 0 if there are none
JoinAt(s, i) ==
  LET fits == {k \in DOMAIN JoinWords : \A x \in 1..Len(JoinWords[k]) : At(s, i + x - 1) = JoinWords[k][x]}
  IN IF fits = {} THEN [k |-> "", n |-> 0] ELSE LET k == CHOOSE k \in fits : TRUE IN [k |-> k, n |-> Len(JoinWords[k])]
RJoin(s, i) ==
  LET w == JoinAt(s, i) r == RSrc(s, i + w.n) k == Leaf(w.k, "") IN
  CASE At(s, r.i) = "on" -> LET e == RE(s, r.i + 1, 1) IN Ret(Node("joinon", <<k, r.t, e.t>>), e.i)
    [] At(s, r.i) = "using" /\ At(s, r.i + 1) = "(" ->
         LET c == Close(s, RList(s, r.i + 2, "name"), ")") IN Ret(Node("joinusing", <<k, r.t, c.t>>), c.i)
    [] OTHER -> Ret(Node("join", <<k, r.t>>), r.i)
RSrcs(s, i, first) ==
  LET h == IF first THEN RSrc(s, i) ELSE IF At(s, i) = "," THEN RSrc(s, i + 1) ELSE RJoin(s, i) IN
  IF At(s, h.i) = "," \/ JoinAt(s, h.i).n > 0 THEN LET r == RSrcs(s, h.i, FALSE) IN Ret(Cons(h.t, r.t), r.i)
  ELSE Ret(Cons(h.t, Nil), h.i)
RCore(s, i) ==           \* SELECT without ORDER BY and LIMIT
  IF At(s, i) # "select" THEN Err(i)
  ELSE LET d == At(s, i + 1) = "distinct"
           l == RList(s, IF d THEN i + 2 ELSE i + 1, "item")
           f == IF At(s, l.i) = "from" THEN RSrcs(s, l.i + 1, TRUE) ELSE Ret(Nil, l.i)
           w == IF At(s, f.i) = "where" THEN RE(s, f.i + 1, 1) ELSE Ret(None, f.i)
           g == IF At(s, w.i) = "group" /\ At(s, w.i + 1) = "by" THEN RList(s, w.i + 2, "expr") ELSE Ret(Nil, w.i)
           h == IF At(s, g.i) = "having" THEN RE(s, g.i + 1, 1) ELSE Ret(None, g.i)
       IN Ret(Node("select", <<Leaf(IF d THEN "distinct" ELSE "all", ""), l.t, f.t, w.t, g.t, h.t, Nil, None>>), h.i)
RTerm(s, i) == IF At(s, i) = "(" THEN Close(s, RQ(s, i + 1), ")") ELSE RCore(s, i)
RSet(s, l) ==
  IF At(s, l.i) # "union" THEN l
  ELSE LET a == At(s, l.i + 1) = "all" r == RTerm(s, IF a THEN l.i + 2 ELSE l.i + 1)
       IN RSet(s, Ret(Node(IF a THEN "unionall" ELSE "union", <<l.t, r.t>>), r.i))
RCtes(s, i) ==
  LET n == RName(s, i)
      q == IF At(s, n.i) = "as" /\ At(s, n.i + 1) = "(" THEN Close(s, RQ(s, n.i + 2), ")") ELSE Err(n.i)
      h == Node("cte", <<n.t, q.t>>)
  IN IF At(s, q.i) = "," THEN LET r == RCtes(s, q.i + 1) IN Ret(Cons(h, r.t), r.i) ELSE Ret(Cons(h, Nil), q.i)
RQ(s, i) ==
  IF At(s, i) = "with" THEN LET c == RCtes(s, i + 1) q == RQ(s, c.i) IN Ret(Node("with", <<c.t, q.t>>), q.i)
  ELSE LET b == RSet(s, RTerm(s, i)) o == ROrder(s, b.i) l == RLimit(s, o.i) IN
       IF b.t.o = "select" /\ At(s, i) = "select" THEN Ret([b.t EXCEPT !.a[7] = o.t, !.a[8] = l.t], l.i)
       ELSE IF o.t.o = "nil" /\ l.t.o = "none" THEN b
       ELSE Ret(Node("ordered", <<b.t, o.t, l.t>>), l.i)
RRows(s, i) ==
  IF At(s, i) # "(" THEN Err(i)
  ELSE LET h == Close(s, RList(s, i + 1, "expr"), ")") IN
       IF At(s, h.i) = "," THEN LET r == RRows(s, h.i + 1) IN Ret(Cons(Wrap("row", h).t, r.t), r.i)
       ELSE Ret(Cons(Wrap("row", h).t, Nil), h.i)
RWhere(s, i) == IF At(s, i) = "where" THEN RE(s, i + 1, 1) ELSE Ret(None, i)
RStmt(s) ==
  CASE At(s, 1) = "insert" /\ At(s, 2) = "into" /\ At(s, 4) = "(" ->
         LET t == RName(s, 3) c == Close(s, RList(s, 5, "name"), ")") IN
         IF At(s, c.i) = "values" THEN LET r == RRows(s, c.i + 1) IN Ret(Node("insert", <<t.t, c.t, r.t>>), r.i)
         ELSE LET q == RQ(s, c.i) IN Ret(Node("insertq", <<t.t, c.t, q.t>>), q.i)
    [] At(s, 1) = "update" /\ At(s, 3) = "set" ->
         LET t == RName(s, 2) l == RList(s, 4, "set") w == RWhere(s, l.i) IN Ret(Node("update", <<t.t, l.t, w.t>>), w.i)
    [] At(s, 1) = "delete" /\ At(s, 2) = "from" -> LET t == RName(s, 3) w == RWhere(s, t.i) IN Ret(Node("delete", <<t.t, w.t>>), w.i)
    [] At(s, 1) = "drop" /\ At(s, 2) = "table" ->
         IF At(s, 3) = "if" /\ At(s, 4) = "exists" THEN Wrap("dropif", RName(s, 5)) ELSE Wrap("drop", RName(s, 3))
    [] OTHER -> RQ(s, 1)
\* the tree of a whole text
Read(s) == LET r == RStmt(s) IN IF r.i = Len(s) + 1 THEN r.t ELSE Leaf("error", "")
=============================================================================
