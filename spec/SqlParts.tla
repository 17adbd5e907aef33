------------------------------ MODULE SqlParts -------------------------------
(***************************************************************************)
(* The kind of a statement, its tables and its columns, from its tree.       *)
(***************************************************************************)
EXTENDS Sql

Kind(t) ==
  CASE t.o \in {"select", "union", "unionall", "ordered", "with"} -> "SELECT"
    [] t.o \in {"insert", "insertq"} -> "INSERT"
    [] t.o \in {"replace", "replaceq"} -> "REPLACE"
    [] t.o = "update" -> "UPDATE"
    [] t.o = "delete" -> "DELETE"
    [] t.o \in {"drop", "dropif"} -> "DROP TABLE"
    [] t.o \in {"create", "createif"} -> "CREATE TABLE"
    [] t.o \in {"addcol", "dropcol"} -> "ALTER TABLE"
    [] OTHER -> "unsupported"

RECURSIVE Nodes(_), Gather(_, _)
Gather(a, i) == IF i > Len(a) THEN {} ELSE Nodes(a[i]) \cup Gather(a, i + 1)
Nodes(n) == {n} \cup Gather(n.a, 1)
Names(ns) == {n.v : n \in ns}
Elems(l) == LET s == Items(l) IN {s[i] : i \in 1..Len(s)}

\* tables: those read and those written, but not the names WITH gives to queries
Ctenames(t) == {n.a[1].v : n \in {n \in Nodes(t) : n.o = "cte"}}
Tables(t) ==
  {n.a[1].v : n \in {n \in Nodes(t) : n.o \in {"table", "tableas", "insert", "insertq", "replace", "replaceq", "update", "delete", "drop", "dropif", "create", "createif", "addcol", "dropcol"}}}
  \ Ctenames(t)

\* columns: named in expressions and as targets; a qualifier stands for its table
Aliases(t) == {n.a[2].v : n \in {n \in Nodes(t) : n.o = "as"}}
Qualified(t, q) ==
  LET s == {n \in Nodes(t) : n.o = "tableas" /\ n.a[2].v = q} IN IF s = {} THEN q ELSE (CHOOSE n \in s : TRUE).a[1].v
RECURSIVE Cols(_, _), ColsAll(_, _, _), QueryCols(_, _), QueryColsAll(_, _, _)
QueryColsAll(t, a, i) == IF i > Len(a) THEN {} ELSE QueryCols(t, a[i]) \cup QueryColsAll(t, a, i + 1)
QueryCols(t, n) == IF n.o \in {"select", "union", "unionall", "ordered", "with"} THEN Cols(t, n) ELSE QueryColsAll(t, n.a, 1)
ColsAll(t, a, i) == IF i > Len(a) THEN {} ELSE Cols(t, a[i]) \cup ColsAll(t, a, i + 1)
Cols(t, n) ==
  CASE n.o = "name" -> {n.v}
    [] n.o = "star" -> {"*"}
    [] n.o = "qcol" -> {Qualified(t, n.a[1].v) \o "." \o n.a[2].v}
    [] n.o = "qstar" -> {Qualified(t, n.a[1].v) \o ".*"}
    [] n.o = "as" -> Cols(t, n.a[1])
    [] n.o = "call" /\ n.a[2].o = "cons" /\ n.a[2].a[1].o = "star" -> {}
    [] n.o \in {"call", "calld"} -> Cols(t, n.a[2])
    [] n.o \in {"table", "tableas", "drop", "dropif"} -> {}
    [] n.o = "derived" -> Cols(t, n.a[1])
    [] n.o = "cte" -> Cols(t, n.a[2])
    \* of the values of rows only what queries among them name
    [] n.o \in {"insert", "replace"} -> Cols(t, n.a[2]) \cup QueryCols(t, n.a[3])
    [] n.o \in {"insertq", "replaceq", "update", "delete", "create", "createif", "addcol", "dropcol"} -> ColsAll(t, n.a, 2)
    [] n.o \in {"join", "joinon", "joinusing"} -> ColsAll(t, n.a, 2)
    [] OTHER -> ColsAll(t, n.a, 1)
Columns2(t) == Cols(t, t) \ Aliases(t)
\* ALTER names no column in a clause
HasColumns(t) == t.o \notin {"addcol", "dropcol"}
=============================================================================
