----------------------------- MODULE ScriptTrace -----------------------------
(* Checks how the code cut recorded scripts against the derivations that     *)
(* produced them, and that no character was lost.                            *)
EXTENDS Script, IOUtils

VARIABLES tr, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]

RECURSIVE Flat(_)
Flat(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Flat(Tail(parts))

Blank(s) == \A i \in 1..Len(s) : s[i] \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

\* statements ended by the tokens of a script, as the reader of tokens sees them
RECURSIVE Ends(_, _)
Ends(o, i) ==
  IF i > Len(o) THEN <<>>
  ELSE (IF o[i] = "semi" /\ Open(SubSeq(o, 1, i)) = <<>> THEN <<i>> ELSE <<>>) \o Ends(o, i + 1)

Bad ==
  IF Flat(T.toks) # T.text THEN "tokens-lossy"
  ELSE IF LET f == Flat(T.stmts)
          IN ~(Len(f) <= Len(T.text) /\ SubSeq(T.text, 1, Len(f)) = f /\ Blank(SubSeq(T.text, Len(f) + 1, Len(T.text)))) THEN "statements-lossy"
  ELSE IF T.splits # T.trimmed THEN "split-differs"
  ELSE IF T.o # <<>> /\ T.cuts # Ends(T.o, 1) THEN "wrong-cut" ELSE ""

TraceInit == tr \in 1..Len(Traces) /\ verdict = "run" /\ Init
Step ==
  /\ verdict = "run" /\ LET b == Bad IN
     /\ verdict' = IF b = "" THEN "ok" ELSE b
     /\ IF b = "" THEN PrintT(<<"GOOD", T.id, Len(T.o)>>) ELSE PrintT(<<"BAD", T.id, 1, b>>)
  /\ UNCHANGED <<tr, vars>>
TraceSpec == TraceInit /\ [][Step]_<<vars, tr, verdict>>
=============================================================================
