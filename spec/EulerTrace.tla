----------------------------- MODULE EulerTrace -----------------------------
(***************************************************************************)
(* Checks recorded histories of the real proxy against EulerDB.             *)
(* The file named by the environment variable TRACES holds a sequence of    *)
(* histories; each is one initial state, each of its events one step.  The  *)
(* step performs the EulerDB action of the event and compares status, rows, *)
(* column names and stored ciphertexts.  Judgement is total: a step that    *)
(* EulerDB does not allow ends the history with the violated clause.        *)
(***************************************************************************)
EXTENDS EulerDB, Json, IOUtils, TLC

VARIABLES tr, l, verdict,
          lay     \* table -> the layout the proxy was seen to use, 0 none, -1 not seen yet

Traces == JsonDeserialize(IOEnv.TRACES)

T == Traces[tr]
E == T.ev[l]
Tabs == 1..Len(T.tables)
Width == [t \in Tabs |-> T.tables[t].width]

\* the number of chunks a failed import was seen to leave behind
StoreFits(d) == \A i \in 1..Len(E.store) :
  SameBag(E.store[i].rows, StoredTable(d[E.store[i].t], T.tables[E.store[i].t].comps))
ExistFits(lv, br) == \A i \in 1..Len(E.store) :
  /\ E.store[i].exists = (E.store[i].t \in lv)
  /\ E.store[i].cat = (E.store[i].t \in lv \cup br)
Kept ==
  LET fits == {k \in 0..E.upto : StoreFits(Load(db, E.t, Width, E.cols, E.chunks, k).db)}
  IN IF fits = {} THEN E.upto ELSE CHOOSE k \in fits : \A m \in fits : m <= k

\* a request is performed with the rights of the account it names, or refused
Allowed ==
  "req" \in DOMAIN E =>
    \E i \in 1..Len(T.accounts) :
      LET a == T.accounts[i]
      IN /\ <<a.host, a.port, a.user, a.password>> = <<E.req[1], E.req[2], E.req[4], E.req[5]>>
         /\ E.req[3] \in ToSet(a.dbs)
OwnConnections == "req" \in DOMAIN E => \A i \in 1..Len(E.used) : E.used[i] = E.req

Act ==
  CASE ~Allowed        -> Refuse
    [] E.op = "create"  -> Create(E.t, E.con, E.ine)
    [] E.op = "drop"    -> Drop(E.t)
    [] E.op = "alter"   -> Alter(E.t, E.con)
    [] E.op = "insert"  -> Insert(E.t, Width, E.cols, E.rows)
    [] E.op = "import"  -> Import(E.t, Width, E.cols, E.chunks, E.upto, Kept)
    [] E.op = "update"  -> Update(E.t, E.sets, E.where, T.text)
    [] E.op = "delete"  -> Delete(E.t, E.where, T.text)
    [] E.op = "select"  -> Query(E.q)
    [] E.op = "encrypt" -> IF E.status = "ok" /\ ~Fresh(E.id) THEN Done("err") /\ Same ELSE Encrypt(E.id, E.q)
    [] E.op = "fetch"   -> Fetch(E.id)
    [] E.op = "decrypt" -> Decrypt(E.id)
    [] E.op = "refuse"  -> Refuse
    [] E.op = "schema"  -> Done("ok") /\ Same
    [] E.op = "probe"   -> Done("ok") /\ Same
    [] E.op = "peek"    -> Done("ok") /\ Same
    [] E.op = "free"    -> Done(E.status) /\ Same
    [] E.op = "restart" -> Restart

\* A statement during which the backend fails may be reported as failed, and has no effect then; if the
\* connection is lost in its commit nobody can know (fault "commit"): what is stored tells.
StoreNow == /\ StoreFits(db)
            /\ ExistFits(live, broken)
Faulted == E.fault # "" /\ E.status = "err"
Half == E.fault = "ddl" /\ Faulted
HalfAct ==  \* what is stored tells how it ended
  /\ IF E.op = "create" THEN HalfCreate(E.t, E.con) ELSE HalfDrop(E.t)
  /\ StoreFits(db') /\ ExistFits(live', broken')
FaultAct == IF Half THEN (IF ENABLED HalfAct THEN HalfAct ELSE Done("err") /\ Same)
            ELSE IF Faulted /\ (E.fault = "fault" \/ StoreNow)
            THEN Done("err") /\ Same
            ELSE Act

\* the physical layout of a table is chosen at its creation and never changes
LayNext ==
  IF E.op = "probe" THEN [t \in Tabs |-> E.lay[t]]
  ELSE [t \in Tabs |-> IF t \notin live' \cup broken' THEN 0 ELSE IF t \notin live \cup broken THEN -1 ELSE lay[t]]
ProbeOk ==
  /\ \A t \in Tabs : IF t \in live \cup broken THEN E.lay[t] # 0 /\ lay[t] \in {-1, E.lay[t]} ELSE E.lay[t] = 0
  /\ \A t, u \in Tabs : t # u /\ E.lay[t] # 0 => E.lay[t] # E.lay[u]

Judge ==
  IF E.status # resp'.status /\ ~Faulted
  THEN (IF E.status = "ok" THEN E.op \o "-accepted" ELSE E.op \o "-failed")
  ELSE LET a == IF E.op = "select" /\ E.status = "ok"
                THEN Answer(E.q, E.res, E.aggs, db', Width, T.text, T.num)
                ELSE IF E.op = "decrypt" /\ E.status = "ok"
                THEN Answer(resp'.query, E.res, E.aggs, tickets[E.id].at, Width, T.text, T.num) ELSE ""
       IN IF a # "" THEN a
          ELSE IF E.op = "encrypt" /\ E.sent # <<>> /\ (\E i \in 1..Len(E.stmts) : <<E.stmts[i]>> # E.sent) THEN "other-statement"
          ELSE IF E.op \in {"select", "decrypt"} /\ E.status = "ok" /\ E.hdr # E.names THEN "column-names"
          ELSE IF E.op = "schema" /\ (ToSet(E.got) # ToSet(E.here) \cap (live \cup broken) \/ Len(E.got) # Cardinality(ToSet(E.got))) THEN "schema"
          ELSE IF ~OwnConnections THEN "foreign-connection"
          ELSE IF E.op = "probe" /\ ~ProbeOk THEN "catalog-belief"
          ELSE IF \E i \in 1..Len(E.store) :
                    \/ (E.store[i].exists /= (E.store[i].t \in live'))
                    \/ (E.store[i].cat /= (E.store[i].t \in live' \cup broken'))
                    \/ ~SameBag(E.store[i].rows, StoredTable(db'[E.store[i].t], T.tables[E.store[i].t].comps))
               THEN "stored-rows"
          ELSE IF \E i \in 1..Len(E.seen) : ~SeenOk(E.seen[i]) THEN "plaintext-sent"
          ELSE IF E.op = "refuse" /\ E.nsent > 0 THEN "refused-after-sending"
          ELSE ""

TraceInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ verdict = "run"
  /\ lay = [t \in Tabs |-> 0]
  /\ Init(Tabs, [t \in Tabs |-> NoCon])

Step ==
  /\ verdict = "run" /\ l <= Len(T.ev)
  /\ FaultAct
  /\ lay' = LayNext
  /\ verdict' = IF Judge = "" THEN "run" ELSE Judge
  /\ l' = l + 1 /\ tr' = tr
  /\ IF Judge = "" THEN TRUE ELSE PrintT(<<"BAD", T.id, l, Judge>>)

Finish ==
  /\ verdict = "run" /\ l = Len(T.ev) + 1
  /\ verdict' = "ok" /\ UNCHANGED <<tr, l, lay, vars>>
  /\ PrintT(<<"GOOD", T.id, Len(T.ev)>>)

TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l, verdict, lay>>
=============================================================================
