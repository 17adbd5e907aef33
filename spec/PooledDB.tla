------------------------------ MODULE PooledDB ------------------------------
(***************************************************************************)
(* What a connection pool promises: who holds which connection, how many   *)
(* may be in use, when a connection may be shared, and in which state it is *)
(* handed over.  Get, Back, Use and Shut are the steps of the pool; the     *)
(* operators ending in Bad name the promise a step breaks ("" if none).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES held,    \* handle -> connection (0: given back)
          share,   \* handle -> taken as a shared connection
          live,    \* shared connections that may be shared once more (not those of a closed pool)
          tx       \* connections in a transaction opened with begin()

pvars == <<held, share, live, tx>>

PInit == held = <<>> /\ share = <<>> /\ live = {} /\ tx = {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InUse == {held[h] : h \in {x \in DOMAIN held : held[x] # 0}}
Holders(c) == {h \in DOMAIN held : held[h] = c}

Below(cfg) == cfg.maxconnections = 0 \/ Cardinality(InUse) < cfg.maxconnections
CanOpenShared(cfg) == Cardinality(live) < cfg.maxshared /\ Below(cfg)
Grantable(sh, cfg) == IF sh THEN CanOpenShared(cfg) \/ live \ tx # {} ELSE Below(cfg)

\* a request for a connection is answered: ok with connection c, "toomany", or with an error of the driver
GetBad(sh, o, c, faulty, cfg) ==
  CASE o = "ok" /\ sh ->
         IF c \in live
         THEN IF c \in tx THEN "shared-in-transaction"
              ELSE IF CanOpenShared(cfg) THEN "shared-too-early" ELSE ""
         ELSE IF c \in InUse THEN "two-owners"
         ELSE IF ~CanOpenShared(cfg) THEN "limit-exceeded" ELSE ""
    [] o = "ok" -> IF c \in InUse THEN "two-owners" ELSE IF ~Below(cfg) THEN "limit-exceeded" ELSE ""
    [] o = "toomany" -> IF cfg.blocking THEN "not-blocking"
                        ELSE IF Grantable(sh, cfg) THEN "refused-below-limit" ELSE ""
    [] OTHER -> IF faulty THEN "" ELSE "refused"
Get(h, sh, o, c) ==
  IF o # "ok" THEN UNCHANGED pvars
  ELSE /\ held' = Put(held, h, c) /\ share' = Put(share, h, sh)
       /\ live' = IF sh THEN live \cup {c} ELSE live
       /\ tx' = IF Holders(c) = {} THEN tx \ {c} ELSE tx

\* a handle is given back; once more is allowed and does nothing
BackBad(h, o) == IF o = "ok" THEN "" ELSE "return-failed"
Back(h) ==
  IF held[h] = 0 THEN UNCHANGED pvars
  ELSE LET c == held[h]
           last == Holders(c) = {h}
       IN /\ held' = [held EXCEPT ![h] = 0]
          /\ live' = IF last THEN live \ {c} ELSE live
          /\ tx' = IF last THEN tx \ {c} ELSE tx
          /\ UNCHANGED share

\* a handle is used; the connection behind it may be another one afterwards
UseBad(h, o) == IF held[h] = 0 THEN IF o = "invalid" THEN "" ELSE "used-after-return"
                ELSE IF o = "invalid" THEN "invalid-while-held" ELSE ""
Use(h, k, o, c) ==
  IF held[h] = 0 THEN UNCHANGED pvars
  ELSE LET old == held[h]
           on == k = "begin"
           off == k \in {"commit", "rollback", "cancel"} \/ o = "fail"
           re(x) == IF x = old THEN c ELSE x
       IN /\ held' = [x \in DOMAIN held |-> re(held[x])]
          /\ live' = {re(x) : x \in live}
          /\ tx' = IF off THEN tx \ {old, c} ELSE IF on THEN (tx \ {old}) \cup {c} ELSE {re(x) : x \in tx}
          /\ UNCHANGED share

\* the pool is closed: what is in use stays in use, but is not shared any more
Shut == live' = {} /\ UNCHANGED <<held, share, tx>>

\* the state a connection is handed over in
OverBad(sh, e, cfg) ==
  IF e.o # "ok" \/ (sh /\ e.c \in live) THEN ""
  ELSE IF e.begun THEN "handed-over-in-transaction"
  ELSE IF e.dirty /\ cfg.reset THEN "handed-over-with-changes"
  ELSE IF e.seen /\ cfg.reset THEN "handed-over-with-snapshot"
  ELSE IF e.dead /\ cfg.ping /\ ~e.faulty THEN "handed-over-dead" ELSE ""

\* nobody is inside the pool: idle connections, and requests that wait for ever
RestBad(e, cfg) ==
  IF cfg.maxcached > 0 /\ e.idle > cfg.maxcached THEN "too-many-idle" ELSE ""
StuckBad(sh, cfg) ==
  IF (IF sh THEN CanOpenShared(cfg) ELSE Below(cfg)) THEN "never-served" ELSE ""
=============================================================================
