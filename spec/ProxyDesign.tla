----------------------------- MODULE ProxyDesign ----------------------------
(***************************************************************************)
(* How the proxy keeps track of tables: the backend has tables under names *)
(* nobody else knows, the catalog (rows in the proxy's own database) says   *)
(* which table is which, and the memory of the proxy has a copy of the      *)
(* catalog.  CREATE and DROP first change the backend, then the catalog,    *)
(* then the memory, one statement at a time; a call to either database may  *)
(* be refused, be lost before or after it has taken effect, and the proxy   *)
(* may die between any two of them.  Other statements look at the memory at *)
(* any time.                                                                *)
(*                                                                          *)
(* Refines: whatever happens, what clients see is EulerDB: tables live or   *)
(* broken, CREATE and DROP done, refused, or cut short as HalfCreate and    *)
(* HalfDrop say, nothing else touched.  Reads: a table no CREATE or DROP is   *)
(* under way for is found by every other statement exactly when it is there. *)
(* Behind: the memory never knows more than the catalog.                    *)
(*                                                                          *)
(* The variants are proxies that do something else, which fail:             *)
(*   "memory-first"  the memory is changed before the catalog,              *)
(*   "drop-forgets"  a DROP the backend refuses is taken out of the catalog,*)
(*   "trusting"      a lost answer of the catalog means it has not changed, *)
(*   "catalog-first" the catalog is changed before the backend,             *)
(*   "unlocked"      CREATE and DROP of several clients overlap.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tables, Pinned,   \* Pinned: the backend refuses to drop it, another table (Pin) refers to it
          Pin, Clients, Faults, Requests, Variant

VARIABLES
  backend,          \* names of tables of the backend
  catalog,          \* rows <<table, name>>
  memory,           \* rows, as remembered
  valid,            \* the memory is used as it is (or else read again first)
  next,             \* the next name
  pc, op,           \* what a client waits for, and its statement
  faults, left,
  live, broken, resp,  \* what clients have been told (EulerDB)
  told              \* the statement answered last, and how many were

vars == <<backend, catalog, memory, valid, next, pc, op, faults, left, live, broken, resp, told>>

Free == [notnull |-> <<>>, pk |-> <<>>, uniques |-> <<>>, fks |-> <<>>]
Con(t) == IF t = Pin THEN [Free EXCEPT !.fks = <<[t |-> Pinned]>>] ELSE Free
All == Tables \cup {Pin}
E == INSTANCE EulerDB WITH db <- [t \in All |-> <<>>], cons <- [t \in All |-> IF t \in live THEN Con(t) ELSE Free], tickets <- <<>>

None == [k |-> "none", t |-> "", n |-> 0, ine |-> FALSE, hit |-> FALSE]
Init == /\ backend = {1} /\ catalog = {<<Pin, 1>>} /\ memory = catalog /\ valid = TRUE /\ next = 2
        /\ pc = [c \in Clients |-> "idle"] /\ op = [c \in Clients |-> None] /\ faults = Faults /\ left = Requests
        /\ live = {Pin} /\ broken = {} /\ resp = [status |-> "none", query |-> E!NoQuery] /\ told = [o |-> None, n |-> 0]

There(b, rows) == {t \in All : \E r \in rows : r[1] = t /\ r[2] \in b}
Holed(b, rows) == {t \in All : \E r \in rows : r[1] = t} \ There(b, rows)

\* c is told how its statement o went
Answer(c, o, status) ==
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ op' = [op EXCEPT ![c] = None]
  /\ resp' = [status |-> status, query |-> E!NoQuery] /\ told' = [o |-> o, n |-> told.n + 1]
  /\ live' = There(backend', catalog') /\ broken' = Holed(backend', catalog')
Later(c, o, where) ==
  /\ pc' = [pc EXCEPT ![c] = where] /\ op' = [op EXCEPT ![c] = o]
  /\ UNCHANGED <<live, broken, resp, told>>

\* a statement begins when no other one of its kind is under way
Start(c) ==
  /\ pc[c] = "idle" /\ left > 0 /\ left' = left - 1
  /\ Variant = "unlocked" \/ \A d \in Clients : pc[d] = "idle"
  /\ UNCHANGED <<backend, catalog, faults>>
  /\ LET rows == IF valid THEN memory ELSE catalog
         knows(t) == \E r \in rows : r[1] = t
         first == CASE Variant = "catalog-first" -> "catalog" [] OTHER -> "backend"
     IN /\ memory' = rows /\ valid' = TRUE
        /\ \E t \in Tables :
             \/ \E ine \in BOOLEAN :
                  LET o == [None EXCEPT !.k = "create", !.t = t, !.n = next, !.ine = ine]
                  IN IF knows(t) THEN Answer(c, o, IF ine THEN "ok" ELSE "err") /\ UNCHANGED next
                     ELSE Later(c, o, first) /\ next' = next + 1
             \/ LET n == (CHOOSE r \in rows : r[1] = t)[2]
                    o == [None EXCEPT !.k = "drop", !.t = t]
                IN /\ UNCHANGED next
                   /\ IF knows(t) THEN Later(c, [o EXCEPT !.n = n], first) ELSE Answer(c, o, "err")

Changed(o) == IF o.k = "create" THEN backend \cup {o.n} ELSE backend \ {o.n}
Rows(o, rows) == IF o.k = "create" THEN rows \cup {<<o.t, o.n>>} ELSE {r \in rows : r[2] # o.n}
After(where) == CASE Variant = "catalog-first" -> IF where = "catalog" THEN "backend" ELSE "memory"
                  [] Variant = "memory-first" -> CASE where = "backend" -> "memory" [] where = "memory" -> "catalog" [] OTHER -> "answer"
                  [] OTHER -> CASE where = "backend" -> "catalog" [] where = "catalog" -> "memory" [] OTHER -> "answer"
GoOn(c, o, where) == IF After(where) = "answer" THEN Answer(c, o, "ok") ELSE Later(c, o, After(where))

Backend(c) ==
  LET o == op[c]
      refused == o.k = "drop" /\ o.t = Pinned /\ o.n \in backend
  IN /\ pc[c] = "backend" /\ UNCHANGED <<catalog, memory, valid, next, left>>
     /\ \/ /\ ~refused /\ backend' = Changed(o) /\ GoOn(c, o, "backend") /\ UNCHANGED faults
        \/ /\ refused /\ UNCHANGED <<backend, faults>>
           /\ IF Variant = "drop-forgets" THEN Later(c, o, "catalog") ELSE Answer(c, o, "err")
        \/ /\ faults > 0 /\ faults' = faults - 1
           /\ backend' \in {backend, IF refused THEN backend ELSE Changed(o)}
           /\ Answer(c, [o EXCEPT !.hit = TRUE], "err")

Catalog(c) ==
  LET o == op[c]
  IN /\ pc[c] = "catalog" /\ UNCHANGED <<backend, memory, next, left>>
     /\ \/ catalog' = Rows(o, catalog) /\ GoOn(c, o, "catalog") /\ UNCHANGED <<faults, valid>>
        \/ /\ faults > 0 /\ faults' = faults - 1
           /\ catalog' \in {catalog, Rows(o, catalog)}
           /\ valid' = (Variant = "trusting")
           /\ Answer(c, [o EXCEPT !.hit = TRUE], "err")

Memory(c) ==
  /\ pc[c] = "memory" /\ memory' = Rows(op[c], memory)
  /\ UNCHANGED <<backend, catalog>>
  /\ GoOn(c, op[c], "memory")
  /\ UNCHANGED <<valid, next, faults, left>>

\* any other statement may be the one that reads the catalog again
Reload == ~valid /\ valid' = TRUE /\ memory' = catalog
          /\ UNCHANGED <<backend, catalog, next, pc, op, faults, left, live, broken, resp, told>>

\* the proxy dies with the statement of c under way, and is started again
Die(c) == /\ faults > 0 /\ faults' = faults - 1 /\ pc[c] # "idle"
          /\ UNCHANGED <<backend, catalog, next, left>>
          /\ Answer(c, [op[c] EXCEPT !.hit = TRUE], "err")
          /\ memory' = catalog /\ valid' = TRUE

Next == (\E c \in Clients : Start(c) \/ Backend(c) \/ Catalog(c) \/ Memory(c) \/ Die(c)) \/ Reload
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Busy == {op[c].t : c \in Clients}
Reads == \A t \in All \ Busy : (t \in There(backend, IF valid THEN memory ELSE catalog)) <=> t \in live
Behind == valid => \A r \in memory \ catalog : \E c \in Clients : op[c].k = "drop" /\ op[c].n = r[2]
\* a table is one table, and nobody's table is another one's
Apart == \A q, r \in catalog : q[1] = r[1] <=> q[2] = r[2]
EulerStep ==
  LET o == told'.o
  IN CASE o.k = "create" -> IF o.hit THEN E!HalfCreate(o.t, Con(o.t)) ELSE E!Create(o.t, Con(o.t), o.ine)
       [] o.k = "drop" -> IF o.hit THEN E!HalfDrop(o.t) ELSE E!Drop(o.t)
Refines == [][told' # told => EulerStep]_vars
=============================================================================
