------------------------------ MODULE SqlTrace -------------------------------
(* Checks what the parser made of the texts of a derived statement, and what *)
(* formatting its tree yields, against the statement.                        *)
EXTENDS Sql, TLC, Json, IOUtils

VARIABLES tr, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]

Denotes(p, want) == WellFormed(p, 1) /\ Same(Norm(Tree(p)), want)

Bad ==
  LET want == Norm(Tree(T.p)) IN
  IF \E i \in 1..Len(T.trees) : T.trees[i][1][1] = "rejected" THEN "rejected"
  ELSE IF \E i \in 1..Len(T.trees) : ~Denotes(T.trees[i], want) THEN "parsed-wrongly"
  ELSE IF ~Same(Norm(Read(T.toks)), want) THEN "formatted-wrongly"
  ELSE IF ~Denotes(T.again, want) THEN "not-reparsed" ELSE ""

Init == tr \in 1..Len(Traces) /\ verdict = "run"
Step ==
  /\ verdict = "run" /\ LET b == Bad IN
     /\ verdict' = IF b = "" THEN "ok" ELSE b
     /\ IF b = "" THEN PrintT(<<"GOOD", T.id, Len(T.p)>>) ELSE PrintT(<<"BAD", T.id, 1, b>>)
  /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_<<tr, verdict>>
=============================================================================
