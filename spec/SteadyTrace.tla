----------------------------- MODULE SteadyTrace -----------------------------
(* Checks recorded histories of steady connections against SteadyDB.        *)
EXTENDS SteadyDB, Json, IOUtils, TLC

VARIABLES tr, l, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
E == T.ev[l]

\* the rules of property D05; replacing a connection inside a transaction breaks both properties
Only05 == {"session-too-late", "session-order", "session-not-prepared", "used-too-often", "closed-twice", "leak",
           "used-after-close"}
D05 == Only05 \cup {"replaced-in-transaction"}
Broken == CASE E.what = "call" -> ""
           [] E.what = "driver" -> Driver(E, T.cfg)
           [] E.what = "ret" -> Answered(E, T.cfg)

Mine(r) == IF T.cfg.prop = "D05" THEN r \in D05 ELSE r \notin Only05

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ verdict = "run" /\ SInit

Step ==
  /\ verdict = "run" /\ l <= Len(T.ev)
  /\ LET r == Broken IN
     /\ IF r # "" THEN UNCHANGED svars
        ELSE CASE E.what = "call" -> Call(E)
               [] E.what = "driver" -> DriverDo(E, T.cfg)
               [] E.what = "ret" -> AnsweredDo(E)
     /\ verdict' = IF r = "" THEN "run" ELSE r
     /\ IF r = "" THEN TRUE
        ELSE IF Mine(r) THEN PrintT(<<"BAD", T.id, l, r>>)
        ELSE PrintT(<<"OTHER", T.id, l, r>>) /\ PrintT(<<"GOOD", T.id, l>>)    \* what follows means nothing
  /\ l' = l + 1 /\ tr' = tr

Finish ==
  /\ verdict = "run" /\ l = Len(T.ev) + 1
  /\ verdict' = "ok" /\ UNCHANGED <<tr, l, svars>>
  /\ PrintT(<<"GOOD", T.id, Len(T.ev)>>)

TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tr, l, verdict>>
=============================================================================
