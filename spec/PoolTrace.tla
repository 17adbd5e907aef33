------------------------------ MODULE PoolTrace ------------------------------
(* Checks recorded histories of several threads against PooledDB: every     *)
(* operation takes effect at one moment between its call and its answer.    *)
EXTENDS PooledDB, Json, IOUtils, TLC

VARIABLES tr, l, todo, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Op(n) == T.op[n]       \* what was asked and answered

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ todo = {} /\ verdict = "run" /\ PInit

Uses == {"begin", "exec", "commit", "rollback", "cancel"}
D01 == {"shared-in-transaction", "shared-too-early", "two-owners", "limit-exceeded", "not-blocking",
        "refused-below-limit", "return-failed", "too-many-idle", "invalid-while-held"}
D02 == {"handed-over-in-transaction", "handed-over-with-changes", "handed-over-with-snapshot", "handed-over-dead",
        "used-after-return", "two-owners"}
D03 == {"never-served", "refused", "refused-below-limit", "not-blocking"}
Mine(r) == r \in (CASE T.cfg.prop = "D01" -> D01 [] T.cfg.prop = "D02" -> D02 [] OTHER -> D03)

Returning(h, n) == \E m \in todo \ {n} : Op(m).k = "back" /\ Op(m).h = h

\* the promises that an operation breaks when it takes effect now
Broken(n) ==
  LET e == Op(n)
  IN CASE e.k = "get" -> {GetBad(e.sh, e.o, e.c, e.faulty, T.cfg), OverBad(e.sh, e, T.cfg)}
       [] e.k = "back" -> {BackBad(e.h, e.o)}
       [] e.k \in Uses -> {IF e.o = "invalid" /\ Returning(e.h, n) THEN "" ELSE UseBad(e.h, e.o)}
       [] e.k = "rest" -> {RestBad(e, T.cfg)}
       [] e.k = "stuck" -> {StuckBad(e.sh, T.cfg)}
       [] OTHER -> {}

\* an operation takes effect; what breaks a promise of another property is passed over
Effect(n) ==
  LET e == Op(n)
  IN /\ verdict = "run" /\ n \in todo /\ e.o # ""
     /\ \A b \in Broken(n) : ~Mine(b)
     /\ CASE e.k = "get" -> Get(e.h, e.sh, e.o, e.c)
          [] e.k = "back" ->    \* given back by two threads: the one that comes second need not wait for the other
               Back(e.h) \/ (Returning(e.h, n) /\ UNCHANGED pvars)
          [] e.k \in Uses -> IF e.o = "invalid" THEN UNCHANGED pvars ELSE Use(e.h, e.k, e.o, e.c)
          [] e.k = "shut" -> Shut
          [] OTHER -> UNCHANGED pvars
     /\ todo' = todo \ {n}
     /\ UNCHANGED <<tr, l, verdict>>

\* the next call or answer
Step ==
  /\ verdict = "run" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ IF e.call THEN todo' = todo \cup {e.n} ELSE e.n \notin todo /\ todo' = todo
     /\ l' = l + 1
     /\ IF "VERBOSE" \in DOMAIN IOEnv THEN PrintT(<<"AT", T.id, l>>) ELSE TRUE
  /\ UNCHANGED <<tr, verdict, pvars>>

Finish ==
  /\ verdict = "run" /\ l = Len(T.ev) + 1
  /\ verdict' = "ok" /\ UNCHANGED <<tr, l, todo, pvars>>
  /\ PrintT(<<"GOOD", T.id, Len(T.ev)>>)

TNext == Finish \/ Step \/ \E n \in todo : Effect(n)
TSpec == TInit /\ [][TNext]_<<pvars, tr, l, todo, verdict>>
=============================================================================
