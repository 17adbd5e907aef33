----------------------------- MODULE PoolDesign -----------------------------
(***************************************************************************)
(* How a pool keeps the promises of PooledDB: a monitor with one condition *)
(* variable.  Requests look at counters and caches while they hold the     *)
(* wait on the condition while they cannot be served, and are woken  *)
(* by whoever changes what they look at.  Every interleaving of the clients *)
(* is explored, with connects that fail and transactions begun and ended   *)
(* without the lock.                                                       *)
(*  - every grant is one that PooledDB allows (no Bad operator complains), *)
(*    and every promise about who may hold what is kept (Promised);        *)
(*  - no wake-up is lost: nobody sleeps while it could be served, but for  *)
(*    a transaction that has just ended, which nobody is told of; and once *)
(*    everybody has given back what it held, everybody has been served.    *)
(* Wake = "one" is a pool that wakes one sleeper for each return, Keep a   *)
(* pool that forgets to give back the place of a connect that failed, and  *)
(* Late a pool that gives the lock away between taking a connection from   *)
(* the shared cache and counting it as returned: with each of the three    *)
(* some of the above fails, which the check looks for.                     *)
(***************************************************************************)
EXTENDS PooledDB, TLC

CONSTANTS N,          \* clients
          Rounds,     \* requests of each client
          Faults,     \* connects that fail
          MaxCon, MaxShared, MaxCached, Blocking,
          Wake, Keep, Late

VARIABLES pc,         \* client -> "out", "wants", "asleep", "woken", "has", "giving"
          want,       \* client -> "shared" or "dedicated"
          left,       \* client -> requests still to be made
                \* the client in the monitor, 0: none (what happens in the monitor is one step but for Late)
          count,      \* connections counted as in use
          idle,       \* idle cache
          cache,      \* shared cache: <<connection, holders>>
          next,       \* the next new connection
          faults

C == 1..N
cfg == [maxconnections |-> MaxCon, maxshared |-> MaxShared, blocking |-> Blocking, reset |-> TRUE, ping |-> FALSE]
design == <<pc, want, left, count, idle, cache, next, faults>>
vars == <<pvars, design>>
Handle(t) == t * 100 + left[t]
Range(s) == {s[i] : i \in DOMAIN s}

Init == /\ PInit
        /\ pc = [t \in C |-> "out"] /\ want \in [C -> IF MaxShared > 0 THEN {"shared", "dedicated"} ELSE {"dedicated"}]
        /\ left = [t \in C |-> Rounds]
        /\ count = 0 /\ idle = <<>> /\ cache = <<>> /\ next = 1 /\ faults = Faults

Sleepers == {t \in C : pc[t] = "asleep"}
Woken(S, p) == [t \in C |-> IF t \in S THEN "woken" ELSE p[t]]
\* whom a change of the counters wakes
Wakes(p, q) == IF Wake = "all" THEN q = Woken(Sleepers, p)
               ELSE IF Sleepers = {} THEN q = p ELSE \E t \in Sleepers : q = Woken({t}, p)

CanOpen == Len(cache) < MaxShared /\ ~(MaxCon > 0 /\ count >= MaxCon)
Free == {i \in DOMAIN cache : cache[i][1] \notin tx}
Least == CHOOSE i \in Free : \A j \in Free : cache[i][2] < cache[j][2] \/ (cache[i][2] = cache[j][2] /\ i <= j)
Served(t) == IF want[t] = "shared" THEN CanOpen \/ Free # {} ELSE ~(MaxCon > 0 /\ count >= MaxCon)

Ask(t) == /\ pc[t] = "out" /\ left[t] > 0
          /\ pc' = [pc EXCEPT ![t] = "wants"]
          /\ UNCHANGED <<pvars, want, left, count, idle, cache, next, faults>>

Sleep(t) == /\ Blocking /\ pc[t] \in {"wants", "woken"} /\ ~Served(t)
            /\ pc' = [pc EXCEPT ![t] = "asleep"]
            /\ UNCHANGED <<pvars, want, left, count, idle, cache, next, faults>>

Refuse(t) == /\ ~Blocking /\ pc[t] = "wants" /\ ~Served(t)
             /\ Assert(GetBad(want[t] = "shared", "toomany", 0, FALSE, cfg) = "", "refused below the limit")
             /\ Get(Handle(t), want[t] = "shared", "toomany", 0)
             /\ pc' = [pc EXCEPT ![t] = "out"] /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<want, count, idle, cache, next, faults>>

\* a new connection is needed, and there is none to be had
Fail(t) == /\ pc[t] \in {"wants", "woken"} /\ Served(t) /\ faults > 0 /\ idle = <<>>
           /\ want[t] = "dedicated" \/ CanOpen
           /\ Assert(GetBad(want[t] = "shared", "err", 0, TRUE, cfg) = "", "refused")
           /\ pc' = [pc EXCEPT ![t] = "out"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ faults' = faults - 1
           /\ count' = IF Keep THEN count + 1 ELSE count
           /\ Get(Handle(t), want[t] = "shared", "err", 0)
           /\ UNCHANGED <<want, idle, cache, next>>

Grant(t) == LET sh == want[t] = "shared"
                old == sh /\ ~CanOpen
                c == IF old THEN cache[Least][1] ELSE IF idle # <<>> THEN Head(idle) ELSE next
            IN /\ pc[t] \in {"wants", "woken"} /\ Served(t)
               /\ Assert(GetBad(sh, "ok", c, FALSE, cfg) = "", <<"grant", GetBad(sh, "ok", c, FALSE, cfg)>>)
               /\ Get(Handle(t), sh, "ok", c)
               /\ idle' = IF old \/ idle = <<>> THEN idle ELSE Tail(idle)
               /\ next' = IF c = next THEN next + 1 ELSE next
               /\ count' = IF old THEN count ELSE count + 1
               /\ cache' = IF old THEN [cache EXCEPT ![Least][2] = @ + 1] ELSE IF sh THEN Append(cache, <<c, 1>>) ELSE cache
               /\ LET p == [pc EXCEPT ![t] = "has"] IN IF sh THEN Wakes(p, pc') ELSE pc' = p
               /\ UNCHANGED <<want, left, faults>>

Begin(t) == /\ pc[t] = "has" /\ held[Handle(t)] \notin tx
            /\ Use(Handle(t), "begin", "ok", held[Handle(t)])
            /\ UNCHANGED design
\* the transaction of a connection is ended by any of its holders; nobody is told
End(t) == /\ pc[t] = "has" /\ held[Handle(t)] \in tx
          /\ Use(Handle(t), "commit", "ok", held[Handle(t)])
          /\ UNCHANGED design

\* into the idle cache, or closed
Cached(c) == IF MaxCached = 0 \/ Len(idle) < MaxCached THEN Append(idle, c) ELSE idle
GiveBack(t) ==
  LET c == held[Handle(t)]
      i == CHOOSE i \in DOMAIN cache : cache[i][1] = c
      shared == want[t] = "shared"
      last == ~shared \/ cache[i][2] = 1
      out == [j \in 1..(Len(cache) - 1) |-> cache[IF j < i THEN j ELSE j + 1]]
  IN /\ pc[t] = "has"
     /\ cache' = IF ~shared THEN cache ELSE IF last THEN out ELSE [cache EXCEPT ![i][2] = @ - 1]
     /\ IF Late /\ shared /\ last
        THEN /\ pc' = [pc EXCEPT ![t] = "giving"]
             /\ UNCHANGED <<pvars, want, left, count, idle, next, faults>>
        ELSE /\ Back(Handle(t))
             /\ idle' = IF last THEN Cached(c) ELSE idle
             /\ count' = IF last THEN count - 1 ELSE count
             /\ Wakes([pc EXCEPT ![t] = "out"], pc')
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<want, next, faults>>
\* only with Late
Given(t) == /\ pc[t] = "giving"
            /\ idle' = Cached(held[Handle(t)]) /\ count' = count - 1
            /\ Back(Handle(t))
            /\ Wakes([pc EXCEPT ![t] = "out"], pc')
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<want, cache, next, faults>>

Over == \A t \in C : pc[t] = "out" /\ left[t] = 0
Next == \/ \E t \in C : Ask(t) \/ Sleep(t) \/ Refuse(t) \/ Fail(t) \/ Grant(t) \/ Begin(t) \/ End(t) \/ GiveBack(t) \/ Given(t)
        \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
        /\ \A t \in C : WF_vars(Ask(t)) /\ WF_vars(Sleep(t)) /\ WF_vars(Refuse(t)) /\ WF_vars(Grant(t) \/ Fail(t)) /\ SF_vars(GiveBack(t)) /\ WF_vars(Given(t))

---------------------------------------------------------------------------
\* what the caches say and what PooledDB says is the same
Agrees == /\ {cache[i][1] : i \in DOMAIN cache} \subseteq live
          /\ (~\E t \in C : pc[t] = "giving") => live = {cache[i][1] : i \in DOMAIN cache}
          /\ ~Keep => count = Cardinality(InUse)
          /\ Range(idle) \cap InUse = {}
          /\ MaxCached > 0 => Len(idle) <= MaxCached
Limited == (MaxCon > 0 => Cardinality(InUse) <= MaxCon) /\ Cardinality(live) <= MaxShared
\* a connection has one holder, unless all its holders share it
Owned == \A c \in InUse : Cardinality(Holders(c)) = 1 \/ \A h \in Holders(c) : share[h]
\* nobody sleeps who could be served when nobody is on the way to look; ending a transaction makes no place, so what it allows is seen at the next return
NoneForgotten == \A t \in Sleepers : ~Served(t) \/ (want[t] = "shared" /\ ~CanOpen) \/ \E u \in C : pc[u] = "woken"
AllServed == <>Over
=============================================================================
