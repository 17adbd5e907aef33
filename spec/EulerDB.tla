------------------------------- MODULE EulerDB -------------------------------
(***************************************************************************)
(* EulerDB as its clients see it: a plaintext relational database.          *)
(*                                                                          *)
(* One action per kind of client request.  `resp` is the answer of the last *)
(* request: a status and, for queries, the query itself, because a query    *)
(* has many right answers (rows of one table have no order).                *)
(*                                                                          *)
(* The physical side (`phys`) is what the backend must store: the row, with *)
(* every companion ciphertext of a column encoding the value of that row.   *)
(***************************************************************************)
EXTENDS EulerSem

VARIABLES db,     \* table -> sequence of rows
          live,   \* tables that exist
          broken, \* tables whose creation or removal was cut short: they can only be dropped
          cons,   \* table -> constraints
          tickets, \* encrypted queries: id -> its query and the database its rows were fetched from
          resp    \* [status, query]

vars == <<db, live, broken, cons, tickets, resp>>

NoQuery == [k |-> "none"]
Same == UNCHANGED <<db, live, broken, cons>>
Done(s) == resp' = [status |-> s, query |-> NoQuery] /\ UNCHANGED tickets

Init(tables, con) ==
  /\ db = [t \in tables |-> <<>>]
  /\ live = {}
  /\ broken = {}
  /\ tickets = <<>>
  /\ cons = con
  /\ resp = [status |-> "none", query |-> NoQuery]

\* a write is accepted exactly when the constraints hold afterwards
Write(t, rows) ==
  LET new == [db EXCEPT ![t] = rows]
  IN IF t \in live /\ AllConstraints(new, cons)
     THEN db' = new /\ Done("ok") /\ UNCHANGED <<live, broken, cons>>
     ELSE Done("err") /\ Same

Insert(t, width, cols, rows) == Write(t, Inserted(db[t], width[t], cols, rows))
Update(t, sets, p, text)     == Write(t, Updated(db[t], sets, p, text))
Delete(t, p, text)           == Write(t, Deleted(db[t], p, text))

\* bulk import: chunk after chunk, each stored as a whole or not at all; the first
\* chunk that cannot be stored ends the import.  `upto` chunks come before a fault.
\* How many whole chunks a failed import leaves behind (`keep`) is not promised.
RECURSIVE Load(_, _, _, _, _, _)
Load(d, t, width, cols, chunks, upto) ==
  IF chunks = <<>> THEN [db |-> d, ok |-> TRUE]
  ELSE LET c   == Head(chunks)
           new == [d EXCEPT ![t] = Inserted(d[t], width[t], cols, c)]
       IN IF /\ upto > 0
             /\ \A i \in 1..Len(c) : \A k \in 1..Len(c[i]) : c[i][k] # UNKNOWN
             /\ AllConstraints(new, cons)
          THEN Load(new, t, width, cols, Tail(chunks), upto - 1)
          ELSE [db |-> d, ok |-> FALSE]
Import(t, width, cols, chunks, upto, keep) ==
  IF t \notin live THEN Done("err") /\ Same
  ELSE LET r == Load(db, t, width, cols, chunks, upto)
       IN /\ db' = IF r.ok THEN r.db ELSE Load(db, t, width, cols, chunks, IF keep < upto THEN keep ELSE upto).db
          /\ Done(IF r.ok THEN "ok" ELSE "err")
          /\ UNCHANGED <<live, broken, cons>>

\* CREATE of an existing table is an error, with IF NOT EXISTS it does nothing
Create(t, con, ine) ==
  IF t \in live \cup broken
  THEN Done(IF ine THEN "ok" ELSE "err") /\ Same
  ELSE /\ live' = live \cup {t}
       /\ cons' = [cons EXCEPT ![t] = con]
       /\ db' = [db EXCEPT ![t] = <<>>]
       /\ Done("ok") /\ broken' = broken

NoCon == [notnull |-> <<>>, pk |-> <<>>, uniques |-> <<>>, fks |-> <<>>]
Referenced(t) == \E u \in live \ {t} : \E f \in ToSet(cons[u].fks) : f.t = t
Gone(t) ==
  /\ live' = live \ {t} /\ broken' = broken \ {t} /\ db' = [db EXCEPT ![t] = <<>>]
  /\ cons' = [cons EXCEPT ![t] = NoCon]
Drop(t) ==
  IF t \in broken \/ (t \in live /\ ~Referenced(t))
  THEN Gone(t) /\ Done("ok")
  ELSE Done("err") /\ Same

\* A CREATE or DROP during which a connection is lost or the proxy dies is done, not done, or leaves
\* the table broken.  It touches nothing else.
HalfCreate(t, con) ==
  /\ Done("err")
  /\ \/ Same
     \/ /\ t \notin live \cup broken
        /\ \/ /\ live' = live \cup {t} /\ cons' = [cons EXCEPT ![t] = con]
              /\ UNCHANGED <<db, broken>>
           \/ broken' = broken \cup {t} /\ UNCHANGED <<db, live, cons>>
HalfDrop(t) ==
  /\ Done("err")
  /\ \/ Same
     \/ t \in broken /\ Gone(t)
     \/ /\ t \in live /\ ~Referenced(t)
        /\ \/ Gone(t)
           \/ /\ live' = live \ {t} /\ broken' = broken \cup {t} /\ db' = [db EXCEPT ![t] = <<>>]
              /\ cons' = [cons EXCEPT ![t] = NoCon]

\* ALTER TABLE ADD/DROP key: accepted when the rows satisfy the new constraints
Alter(t, con) ==
  LET new == [cons EXCEPT ![t] = con]
  IN IF t \in live /\ AllConstraints(db, new)
     THEN cons' = new /\ Done("ok") /\ UNCHANGED <<db, live, broken>>
     ELSE Done("err") /\ Same

RECURSIVE TablesOf(_)
TablesOf(f) ==
  CASE f.kind = "table" -> {f.t}
    [] f.kind = "join"  -> {f.t} \cup {f.j[i].t : i \in 1..Len(f.j)}
    [] f.kind = "sub"   -> TablesOf(f.q.from)
    [] f.kind = "subs"  -> UNION {TablesOf(f.qs[i].from) : i \in 1..Len(f.qs)}

Query(q) ==
  /\ resp' = IF TablesOf(q.from) \subseteq live
             THEN [status |-> "ok", query |-> q]
             ELSE [status |-> "err", query |-> NoQuery]
  /\ Same /\ UNCHANGED tickets

(* ---- queries encrypted for a client that asks the backend itself ----------- *)
Fresh(id) == id \notin DOMAIN tickets
Encrypt(id, q) ==
  IF q.from.kind = "none" \/ TablesOf(q.from) \subseteq live
  THEN /\ Fresh(id)
       /\ tickets' = [i \in DOMAIN tickets \cup {id} |-> IF i = id THEN [q |-> q, at |-> <<>>] ELSE tickets[i]]
       /\ resp' = [status |-> "ok", query |-> NoQuery] /\ Same
  ELSE Done("err") /\ Same
\* the client fetches rows from the backend with the encrypted query
Fetch(id) ==
  /\ id \in DOMAIN tickets
  /\ tickets' = [tickets EXCEPT ![id].at = db]
  /\ resp' = [status |-> "ok", query |-> NoQuery] /\ Same
\* and has them decrypted: they are the rows there were when they were fetched
Decrypt(id) ==
  /\ resp' = IF ~Fresh(id) THEN [status |-> "ok", query |-> tickets[id].q]
             ELSE [status |-> "err", query |-> NoQuery]
  /\ Same /\ UNCHANGED tickets

\* a statement that cannot be translated is refused
Refuse == Done("err") /\ Same

\* the proxy dies and is started again; the queries it encrypted are forgotten
Restart ==
  /\ resp' = [status |-> "ok", query |-> NoQuery]
  /\ tickets' = <<>>
  /\ Same

(* ---- what the backend may see --------------------------------------------- *)
\* a sighting in a statement sent to the backend: a name, "hidden" or the client's own,
\* or a literal and the companion it is stored in or compared with: "opaque", "clear"
\* (a protected text), or "number" (a protected number or its order code)
SeenOk(s) ==
  CASE s.what = "name" -> s.cls # "logical"
    [] OTHER -> \/ s.cls = "opaque"
                \/ s.cls = "number" /\ s.pos = "order-preserving"

(* ---- the stored rows ----------------------------------------------------- *)
\* what the backend holds for a row: one value per companion of every column
Stored(row, comps) == [c \in 1..Len(row) |-> [i \in 1..comps[c] |-> row[c]]]
StoredTable(rows, comps) == [i \in 1..Len(rows) |-> Stored(rows[i], comps)]
=============================================================================
