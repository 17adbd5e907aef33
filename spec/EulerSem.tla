------------------------------ MODULE EulerSem ------------------------------
(***************************************************************************)
(* What a plaintext database answers: the meaning of the statements EulerDB *)
(* accepts, over abstract values.                                           *)
(*                                                                          *)
(* Values are integers: the rank of the value among all values of the       *)
(* history (numbers in numeric order; equal ranks are equal values).  NULL  *)
(* is below every rank, so that it sorts first, UNKNOWN is a value nobody   *)
(* ever wrote: undecrypted text, another type, a number off by too much.    *)
(* A row is a sequence of values, a table a sequence of rows whose order    *)
(* carries no meaning.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BigNum

NULL == -1000000
UNKNOWN == -1

(* ---- bags of rows ---------------------------------------------------- *)
CountIn(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : CountIn(s[i], s) = CountIn(s[i], t)
SubSeqBag(s, t) == \A i \in 1..Len(s) : CountIn(s[i], s) <= CountIn(s[i], t)

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET h == SubSeq(s, 1, Len(s) - 1) l == s[Len(s)]
                 IN IF \E i \in 1..Len(h) : h[i] = l THEN Dedup(h) ELSE Append(Dedup(h), l)

Min2(a, b) == IF a < b THEN a ELSE b

(* ---- LIKE over sequences of characters ------------------------------- *)
\* a pattern is a sequence of characters, 0 standing for %
RECURSIVE LikeFrom(_, _, _, _)
LikeFrom(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = 0 THEN \E k \in i..(Len(s) + 1) : LikeFrom(s, k, p, j + 1)
  ELSE i <= Len(s) /\ s[i] = p[j] /\ LikeFrom(s, i + 1, p, j + 1)
Like(s, p) == LikeFrom(s, 1, p, 1)

(* ---- predicates, in three-valued logic: 1 true, 0 false, 2 unknown ---- *)
B3(b) == IF b THEN 1 ELSE 0
Cmp3(op, a, b) ==
  IF a = NULL \/ b = NULL THEN 2
  ELSE CASE op = "eq"  -> B3(a = b)
         [] op = "lt"  -> B3(a < b)
         [] op = "lte" -> B3(a <= b)
         [] op = "gt"  -> B3(a > b)
         [] op = "gte" -> B3(a >= b)
And3(vs) == IF \E i \in 1..Len(vs) : vs[i] = 0 THEN 0
            ELSE IF \E i \in 1..Len(vs) : vs[i] = 2 THEN 2 ELSE 1
Or3(vs) == IF \E i \in 1..Len(vs) : vs[i] = 1 THEN 1
           ELSE IF \E i \in 1..Len(vs) : vs[i] = 2 THEN 2 ELSE 0

\* text[v] is the character sequence of the value with rank v
RECURSIVE Eval(_, _, _)
Eval(p, row, text) ==
  CASE p.k = "true" -> 1
    [] p.k = "cmp"  -> Cmp3(p.op, row[p.c], p.v)
    [] p.k = "col"  -> Cmp3(p.op, row[p.c], row[p.d])
    [] p.k = "like" -> IF row[p.c] = NULL THEN 2 ELSE B3(Like(text[row[p.c]], p.p))
    [] p.k = "and"  -> And3([i \in 1..Len(p.a) |-> Eval(p.a[i], row, text)])
    [] p.k = "or"   -> Or3([i \in 1..Len(p.a) |-> Eval(p.a[i], row, text)])

Holds(p, row, text) == Eval(p, row, text) = 1
Filter(rows, p, text) == SelectSeq(rows, LAMBDA r : Holds(p, r, text))

(* ---- FROM: tables, joins, derived tables ------------------------------ *)
Project(row, cols) == [i \in 1..Len(cols) |-> row[cols[i]]]
Nulls(n) == [i \in 1..n |-> NULL]

\* all combinations of a row of the left with its partners on the right
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Eq(a, b) == a # NULL /\ a = b
Partners(row, right, l, r) == SelectSeq(right, LAMBDA x : Eq(row[l], x[r]))
JoinInner(left, right, l, r) ==
  Flat([i \in 1..Len(left) |->
    LET ps == Partners(left[i], right, l, r) IN [k \in 1..Len(ps) |-> left[i] \o ps[k]]])
JoinLeft(left, right, l, r, wr) ==
  Flat([i \in 1..Len(left) |->
    LET ps == Partners(left[i], right, l, r)
    IN IF ps = <<>> THEN <<left[i] \o Nulls(wr)>> ELSE [k \in 1..Len(ps) |-> left[i] \o ps[k]]])
JoinRight(left, right, l, r, wl) ==
  Flat([i \in 1..Len(right) |->
    LET ps == SelectSeq(left, LAMBDA x : Eq(x[l], right[i][r]))
    IN IF ps = <<>> THEN <<Nulls(wl) \o right[i]>> ELSE [k \in 1..Len(ps) |-> ps[k] \o right[i]]])
Cross(left, right) ==
  Flat([i \in 1..Len(left) |-> [k \in 1..Len(right) |-> left[i] \o right[k]]])
JoinStep(j, left, right, wl, wr) ==
  CASE j.type = "inner" -> JoinInner(left, right, j.l, j.r)
    [] j.type = "left"  -> JoinLeft(left, right, j.l, j.r, wr)
    [] j.type = "right" -> JoinRight(left, right, j.l, j.r, wl)
    [] j.type = "cross" -> Cross(left, right)

\* db[t] the rows of table t, width[t] the number of its columns
RECURSIVE Joined(_, _, _, _, _)
Joined(js, acc, wl, db, width) ==
  IF js = <<>> THEN acc
  ELSE LET j == Head(js)
       IN Joined(Tail(js), JoinStep(j, acc, db[j.t], wl, width[j.t]), wl + width[j.t], db, width)

RECURSIVE Source(_, _, _, _)
RECURSIVE Plain(_, _, _, _)
\* a derived table is an unordered, unlimited query over columns
Plain(q, db, width, text) ==
  LET rows == Filter(Source(q.from, db, width, text), q.where, text)
      out  == [i \in 1..Len(rows) |-> Project(rows[i], q.cols)]
  IN IF q.distinct THEN Dedup(out) ELSE out
Source(f, db, width, text) ==
  CASE f.kind = "table" -> db[f.t]
    [] f.kind = "join"  -> Joined(f.j, db[f.t], width[f.t], db, width)
    [] f.kind = "sub"   -> Plain(f.q, db, width, text)
    [] f.kind = "subs"  -> LET RECURSIVE All(_)
                               All(qs) == IF Len(qs) = 1 THEN Plain(qs[1], db, width, text)
                                          ELSE Cross(Plain(qs[1], db, width, text), All(Tail(qs)))
                           IN All(f.qs)

(* ---- ORDER BY / LIMIT: which sequences of rows are right answers ------ *)
RECURSIVE KeyLt(_, _, _, _)
KeyLt(a, b, order, i) ==
  IF i > Len(order) THEN FALSE
  ELSE IF a[i] # b[i] THEN (IF order[i].desc THEN a[i] > b[i] ELSE a[i] < b[i])
  ELSE KeyLt(a, b, order, i + 1)

\* rows: selected rows before projection.  The answer must list, for the i-th
\* smallest key, the projections of the rows with that key in some order; a limit
\* may cut it anywhere.
Ordered(res, rows, q) ==
  LET n    == IF q.limit < 0 THEN Len(rows) ELSE Min2(q.limit, Len(rows))
      key(r) == [i \in 1..Len(q.order) |-> r[q.order[i].c]]
      ks   == {key(rows[i]) : i \in 1..Len(rows)}
      before(k) == Cardinality({i \in 1..Len(rows) : KeyLt(key(rows[i]), k, q.order, 1)})
      group(k)  == LET g == SelectSeq(rows, LAMBDA r : key(r) = k)
                   IN [i \in 1..Len(g) |-> Project(g[i], q.cols)]
  IN /\ Len(res) = n
     /\ \A k \in ks :
          LET lo == before(k)
              g  == group(k)
              hi == Min2(lo + Len(g), n)
              part == SubSeq(res, lo + 1, hi)
          IN lo < n => IF hi = lo + Len(g) THEN SameBag(part, g) ELSE SubSeqBag(part, g)

Unordered(res, out, limit) ==
  IF limit < 0 THEN SameBag(res, out)
  ELSE Len(res) = Min2(limit, Len(out)) /\ SubSeqBag(res, out)

(* ---- aggregates ------------------------------------------------------- *)
ColVals(rows, c) == SelectSeq([i \in 1..Len(rows) |-> rows[i][c]], LAMBDA v : v # NULL)
MaxOf(vs) == CHOOSE m \in ToSet(vs) : \A v \in ToSet(vs) : v <= m
MinOf(vs) == CHOOSE m \in ToSet(vs) : \A v \in ToSet(vs) : v >= m
NumSum(vs, num) == BSum([i \in 1..Len(vs) |-> num[vs[i]]])

\* an observed aggregate is [null |-> BOOLEAN, v |-> rank, b |-> big integer]; an
\* average is reported as its value times 10^4, which must be the nearest integer
AggOk(a, rows, obs, num) ==
  LET vs == ColVals(rows, a.c)
      n  == Len(vs)
  IN CASE a.f = "count" -> ~obs.null /\ obs.v = Len(rows)
       [] a.f = "max"   -> IF n = 0 THEN obs.null ELSE ~obs.null /\ obs.v = MaxOf(vs)
       [] a.f = "min"   -> IF n = 0 THEN obs.null ELSE ~obs.null /\ obs.v = MinOf(vs)
       [] a.f = "sum"   -> IF n = 0 THEN obs.null ELSE ~obs.null /\ BEq(obs.b, NumSum(vs, num))
       [] a.f = "avg"   -> IF n = 0 THEN obs.null
                           ELSE /\ ~obs.null
                                /\ LET d == BSub(BMul(obs.b, BOf(n)), BMul(NumSum(vs, num), BOf(10000)))
                                   IN BLe(BMul(BAbs(d), BOf(2)), BOf(n))

(* ---- SELECT ----------------------------------------------------------- *)
\* the name of the violated clause, "" when the answer is right
Answer(q, res, aggs, db, width, text, num) ==
  LET rows == Filter(Source(q.from, db, width, text), q.where, text)
  IN IF q.aggs # <<>>
     THEN IF Len(aggs) # Len(q.aggs) THEN "aggregate-shape"
          ELSE IF \A i \in 1..Len(q.aggs) : AggOk(q.aggs[i], rows, aggs[i], num) THEN "" ELSE "aggregate-value"
     ELSE LET out == [i \in 1..Len(rows) |-> Project(rows[i], q.cols)]
          IN IF q.order # <<>>
             THEN IF Ordered(res, rows, q) THEN ""
                  ELSE IF Unordered(res, out, q.limit) THEN "order" ELSE "rows"
             ELSE IF Unordered(res, IF q.distinct THEN Dedup(out) ELSE out, q.limit) THEN "" ELSE "rows"

(* ---- writes ------------------------------------------------------------ *)
InsertRow(width, cols, vals) ==
  [i \in 1..width |-> IF \E k \in 1..Len(cols) : cols[k] = i
                      THEN vals[CHOOSE k \in 1..Len(cols) : cols[k] = i] ELSE NULL]
Inserted(rows, width, cols, newrows) ==
  rows \o [i \in 1..Len(newrows) |-> InsertRow(width, cols, newrows[i])]
SetRow(row, sets) ==
  [i \in 1..Len(row) |-> IF \E k \in 1..Len(sets) : sets[k].c = i
                         THEN sets[CHOOSE k \in 1..Len(sets) : sets[k].c = i].v ELSE row[i]]
Updated(rows, sets, p, text) ==
  [i \in 1..Len(rows) |-> IF Holds(p, rows[i], text) THEN SetRow(rows[i], sets) ELSE rows[i]]
Deleted(rows, p, text) == SelectSeq(rows, LAMBDA r : ~Holds(p, r, text))

(* ---- constraints ------------------------------------------------------- *)
\* con: [notnull : set of columns, pk : columns, fks : sequence of [cols, t, rcols]]
NotNullOk(rows, con) ==
  \A i \in 1..Len(rows) : \A c \in ToSet(con.notnull) \cup ToSet(con.pk) : rows[i][c] # NULL
PkOk(rows, con) ==
  con.pk = <<>> \/ \A i, j \in 1..Len(rows) : i < j => Project(rows[i], con.pk) # Project(rows[j], con.pk)
UniqueOk(rows, con) ==
  \A u \in ToSet(con.uniques) : \A i, j \in 1..Len(rows) :
     (i < j /\ Project(rows[i], u) = Project(rows[j], u)) => \E x \in ToSet(u) : rows[i][x] = NULL
FkOk(rows, con, db) ==
  \A f \in ToSet(con.fks) : \A i \in 1..Len(rows) :
     LET k == Project(rows[i], f.cols)
     IN (\E x \in 1..Len(k) : k[x] = NULL)
        \/ \E j \in 1..Len(db[f.t]) : Project(db[f.t][j], f.rcols) = k
AllConstraints(db, cons) ==
  \A t \in DOMAIN db : /\ NotNullOk(db[t], cons[t]) /\ PkOk(db[t], cons[t])
                       /\ UniqueOk(db[t], cons[t]) /\ FkOk(db[t], cons[t], db)
=============================================================================
