----------------------------- MODULE PartsTrace ------------------------------
(* Checks what the analyser says of the texts of a derived statement against *)
(* the statement: said is one record per text.                               *)
EXTENDS SqlParts, TLC, Json, IOUtils

VARIABLES tr, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]

Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Set(s) == {s[i] : i \in 1..Len(s)}
Bad ==
  LET t == Tree(T.p) s == T.said k == Kind(t) IN
  IF \E i \in 1..Len(s) : s[i].kind # k THEN "kind"
  ELSE IF k = "unsupported" THEN (IF \E i \in 1..Len(s) : ~s[i].refused THEN "misused" ELSE "")
  ELSE IF \E i \in 1..Len(s) : ~Distinct(s[i].tables) \/ Set(s[i].tables) # Tables(t) THEN "tables"
  ELSE IF HasColumns(t) /\ \E i \in 1..Len(s) : ~Distinct(s[i].columns) \/ Set(s[i].columns) # Columns2(t) THEN "columns"
  ELSE ""

Init == tr \in 1..Len(Traces) /\ verdict = "run"
Step ==
  /\ verdict = "run" /\ LET b == Bad IN
     /\ verdict' = IF b = "" THEN "ok" ELSE b
     /\ IF b = "" THEN PrintT(<<"GOOD", T.id, Len(T.p)>>) ELSE PrintT(<<"BAD", T.id, 1, b>>)
  /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_<<tr, verdict>>
=============================================================================
