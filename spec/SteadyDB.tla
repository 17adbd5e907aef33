------------------------------ MODULE SteadyDB ------------------------------
(***************************************************************************)
(* A steady connection: a client's view of one database connection that    *)
(* replaces lost or worn-out driver connections.                            *)
(*                                                                          *)
(* Steps are the calls of the client, the calls that reach the driver while *)
(* a client's call is being served, and the answers.  Allowed(e) names the  *)
(* rule a step breaks ("" if none); Apply(e) is its effect.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES con,   \* driver connections: id -> [open, ready, uses, lost]
          intx,  \* the client's transaction: "no", "yes", or "maybe" when begin() failed
          bad,   \* driver connections that must not be used again: their transaction was lost
          op,    \* the client's call being served
          curs   \* client cursor -> value of its last statement

svars == <<con, intx, bad, op, curs>>

Idle == [k |-> "idle"]
NewCall(e) == [k |-> e.k, s |-> e.s, cur |-> e.cur, sz |-> e.sz, tx |-> intx,
               tries |-> 0, done |-> FALSE, v |-> 0,
               first |-> 0,        \* the first error of the driver
               fail |-> TRUE,      \* and whether it was a connection failure
               lost |-> FALSE,     \* a driver connection was lost
               opened |-> FALSE,   \* the connection is being replaced
               errs |-> {}, ends |-> 0, worn |-> FALSE]

SInit == con = <<>> /\ intx = "no" /\ bad = {} /\ op = Idle /\ curs = <<>>

Known(c) == c \in DOMAIN con
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ---- the driver is called
Worn(c, max) == max > 0 /\ con[c].uses >= max
Driver(e, cfg) ==
  CASE e.d = "open" ->
         IF op.first # 0 /\ ~op.fail THEN "retried-other-error"
         ELSE IF op.tx = "yes" /\ op.errs = {} THEN "replaced-in-transaction"
         ELSE ""
    [] e.d = "session" ->
         IF con[e.c].uses > 0 \/ con[e.c].tried THEN "session-too-late"
         ELSE IF e.s # con[e.c].ready + 1 THEN "session-order" ELSE ""
    [] e.d = "exec" ->
         IF op.k # "exec" \/ op.s # e.s THEN "other-statement"
         ELSE IF op.done THEN "replayed"
         ELSE IF op.tx = "yes" /\ op.tries > 0 THEN "replayed-in-transaction"
         ELSE IF op.tries > 0 /\ ~op.fail THEN "retried-other-error"
         ELSE IF op.tries >= 3 THEN "too-many-tries"
         ELSE IF e.o = "ok" /\ ~con[e.c].open THEN "used-after-close"
         ELSE IF e.o # "fail" /\ con[e.c].ready # cfg.session THEN "session-not-prepared"
         ELSE IF e.o = "ok" /\ e.c \in bad THEN "lost-transaction-continued"
         ELSE IF e.o = "ok" /\ op.tx = "no" /\ Worn(e.c, cfg.maxusage) THEN "used-too-often"
         ELSE IF e.o = "ok" /\ e.sz # op.sz THEN "sizes-lost"
         ELSE ""
    [] e.d \in {"commit", "rollback", "begin", "cancel"} ->
         IF op.k # e.d /\ ~(e.d = "rollback" /\ op.k \in {"close", "reset"}) THEN "uncalled-" \o e.d
         ELSE IF op.ends > 0 THEN "repeated-" \o e.d
         ELSE ""
    [] e.d = "close" ->
         IF ~con[e.c].open THEN "closed-twice"
         ELSE IF op.tx = "yes" /\ op.k \notin {"close", "commit", "rollback", "reset", "end"} /\ op.errs = {} THEN "replaced-in-transaction"
         ELSE ""
    [] OTHER -> ""

\* preparing a new connection
Prep(e, cfg) == e.d \in {"open", "session", "ping", "close"} \/ (e.d = "cursor" /\ Known(e.c) /\ con[e.c].ready # cfg.session)
Err(o, e, cfg) ==
  IF e.o = "ok" THEN o
  ELSE [o EXCEPT !.first = IF o.first = 0 /\ ~Prep(e, cfg) THEN e.e ELSE @,
                 !.fail = IF o.first = 0 /\ ~Prep(e, cfg) /\ ~o.opened THEN e.o = "fail" ELSE @,
                 !.lost = o.lost \/ (e.o = "fail" /\ ~Prep(e, cfg)),
                 !.errs = o.errs \cup {e.e}]
DriverDo(e, cfg) ==
  /\ con' = CASE e.d = "open" /\ e.o = "ok" -> Set(con, e.c, [open |-> TRUE, ready |-> 0, uses |-> 0, tried |-> FALSE])
              [] e.d = "session" /\ e.o = "ok" -> [con EXCEPT ![e.c].ready = e.s]
              [] e.d = "exec" /\ e.o = "ok" -> [con EXCEPT ![e.c].uses = @ + 1, ![e.c].tried = TRUE]
              [] e.d = "exec" /\ e.o # "ok" /\ Known(e.c) -> [con EXCEPT ![e.c].tried = TRUE]
              [] e.d = "close" -> [con EXCEPT ![e.c].open = FALSE]
              [] OTHER -> con
  /\ op' = CASE e.d = "exec" -> Err([op EXCEPT !.tries = @ + 1, !.done = (e.o = "ok"), !.v = IF e.o = "ok" THEN e.v ELSE @], e, cfg)
             [] e.d \in {"commit", "rollback", "begin", "cancel"} -> Err([op EXCEPT !.ends = @ + 1], e, cfg)
             [] e.d = "open" /\ e.o = "ok" -> [op EXCEPT !.opened = TRUE]
             [] OTHER -> Err(op, e, cfg)
  /\ \* inside a transaction a connection that failed must not be used again
     bad' = IF op.tx = "yes" /\ e.o = "fail" /\ e.d \in {"exec", "cursor", "commit", "rollback"} /\ ~Prep(e, cfg) THEN bad \cup {e.c} ELSE bad
  /\ UNCHANGED <<intx, curs>>

\* ---- the client is answered
Answered(e, cfg) ==
  CASE op.k = "exec" ->
         IF e.o = "ok"
         THEN IF ~op.done THEN "failure-hidden" ELSE IF e.v # op.v THEN "other-result" ELSE ""
         ELSE IF op.done THEN "result-hidden"
         ELSE IF op.tx = "yes" /\ op.first # 0 /\ e.e # op.first THEN "other-error"
         ELSE IF op.tx = "no" /\ op.first # 0 /\ e.e \notin op.errs /\ ~e.own THEN "other-error"
         ELSE IF op.first = 0 /\ ~(e.own /\ cfg.maxusage > 0 /\ op.tx # "yes") THEN "refused"
         ELSE ""
    [] op.k = "cursor" ->
         IF e.o = "ok"
         THEN IF op.tx = "yes" /\ op.lost THEN "failure-hidden" ELSE ""
         ELSE IF op.tx = "yes" /\ op.first # 0 /\ e.e # op.first THEN "other-error"
         ELSE IF op.first = 0 /\ ~(e.own /\ cfg.maxusage > 0 /\ op.tx # "yes") THEN "refused"
         ELSE ""
    [] op.k \in {"commit", "rollback", "begin", "cancel"} ->
         IF e.o = "ok"
         THEN IF op.first # 0 THEN "failure-hidden"
              ELSE IF op.ends # 1 /\ ~(op.k = "begin" /\ ~cfg.begin) /\ ~(op.k = "cancel" /\ ~cfg.cancel) THEN "not-performed" ELSE ""
         ELSE IF e.e # op.first THEN "other-error" ELSE ""
    [] op.k = "fetch" -> IF e.o = "ok" /\ e.v # curs[op.cur] THEN "other-result" ELSE ""
    [] op.k = "end" -> IF \E c \in DOMAIN con : con[c].open THEN "leak" ELSE ""
    [] OTHER -> ""

AnsweredDo(e) ==
  /\ intx' = CASE op.k = "begin"    -> IF e.o = "ok" THEN "yes" ELSE "maybe"
               [] op.k \in {"commit", "rollback", "cancel"} /\ e.o # "ok" /\ ~op.lost /\ op.tx # "no" -> "maybe"
               [] op.k \in {"commit", "rollback", "cancel", "close", "reset"} -> "no"
               [] op.k \in {"exec", "cursor"} /\ op.tx # "no" /\ op.lost -> IF op.tx = "yes" THEN "no" ELSE "maybe"
               [] OTHER -> intx
  /\ curs' = IF op.k = "exec" /\ e.o = "ok" THEN Set(curs, op.cur, e.v)
             ELSE IF op.k = "cursor" /\ e.o = "ok" THEN Set(curs, op.cur, 0) ELSE curs
  /\ op' = Idle
  /\ UNCHANGED <<con, bad>>

Call(e) == op' = NewCall(e) /\ UNCHANGED <<con, intx, bad, curs>>
=============================================================================
