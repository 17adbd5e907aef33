----------------------------- MODULE EulerConc -----------------------------
(***************************************************************************)
(* Concurrent clients of EulerDB.  A history is a sequence of batches; the  *)
(* requests of a batch overlap.  Each request must have had the effect and  *)
(* the answer of its EulerDB action at some moment between its start and    *)
(* its end: TLC looks for an order of the requests of a batch, consistent   *)
(* with E.pre (the requests that had ended when it started), in which every *)
(* step is one of EulerDB's.  A history without such an order never         *)
(* finishes; it is then not reported GOOD.                                  *)
(***************************************************************************)
EXTENDS EulerTrace

VARIABLES done,   \* requests of the batch that have taken effect
          base    \* requests of earlier batches

BatchSize == T.ev[base + 1].n

ConcInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 0
  /\ verdict = "run"
  /\ lay = [t \in Tabs |-> 0]
  /\ done = {} /\ base = 0
  /\ Init(Tabs, [t \in Tabs |-> NoCon])

Pick ==
  /\ verdict = "run" /\ l = 0 /\ base < Len(T.ev)
  /\ \E i \in (base + 1)..(base + BatchSize) :
       /\ i \notin done /\ ToSet(T.ev[i].pre) \subseteq done
       /\ l' = i
  /\ UNCHANGED <<tr, verdict, lay, done, base, vars>>

Effect ==
  /\ verdict = "run" /\ l > 0
  /\ FaultAct
  /\ Judge = ""
  /\ lay' = lay
  /\ l' = 0
  /\ IF Cardinality(done) + 1 = BatchSize
     THEN done' = {} /\ base' = base + BatchSize
     ELSE done' = done \cup {l} /\ base' = base
  /\ UNCHANGED <<tr, verdict>>
  /\ IF "VERBOSE" \in DOMAIN IOEnv THEN PrintT(<<"AT", T.id, base + Cardinality(done) + 1>>) ELSE TRUE

ConcFinish ==
  /\ verdict = "run" /\ l = 0 /\ base = Len(T.ev)
  /\ verdict' = "ok" /\ UNCHANGED <<tr, l, lay, done, base, vars>>
  /\ PrintT(<<"GOOD", T.id, Len(T.ev)>>)

ConcNext == Pick \/ Effect \/ ConcFinish
ConcSpec == ConcInit /\ [][ConcNext]_<<vars, tr, l, verdict, lay, done, base>>
=============================================================================
