----------------------------- MODULE CryptoTrace -----------------------------
(* Checks recorded calls of the ciphers and codes against their modules.    *)
EXTENDS Cipher, Ope, NumCode, Additive, Json, IOUtils, TLC

VARIABLES tr, l, verdict
cvars == <<known, map, codes, val>>

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
E == T.ev[l]

Broken ==
  CASE E.d = "enc" -> EncBad(E)
    [] E.d = "dec" -> DecBad(E)
    [] E.d = "fuzzy" -> FuzzyBad(E)
    [] E.d = "oenc" -> OEncBad(E, T.cfg)
    [] E.d = "odec" -> ODecBad(E, T.cfg)
    [] E.d = "encode" -> EncodeBad(E, T.cfg)
    [] E.d = "decode" -> DecodeBad(E, T.cfg)
    [] E.d = "same" -> SameBad(E)
    [] E.d = "aenc" -> AEncBad(E)
    [] E.d = "combine" -> CombineBad(E, T.cfg)

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ verdict = "run" /\ CInit /\ OInit /\ NInit /\ AInit

Step ==
  /\ verdict = "run" /\ l <= Len(T.ev)
  /\ LET r == Broken IN
     /\ IF r # "" THEN UNCHANGED cvars
        ELSE /\ IF E.d = "enc" THEN Enc(E) ELSE UNCHANGED known
             /\ IF E.d = "oenc" THEN OEnc(E) ELSE IF E.d = "odec" THEN ODec(E) ELSE UNCHANGED map
             /\ IF E.d = "encode" THEN Encode(E) ELSE UNCHANGED codes
             /\ IF E.d = "aenc" THEN AEnc(E) ELSE UNCHANGED val
     /\ verdict' = IF r = "" THEN "run" ELSE r
     /\ IF r = "" THEN TRUE ELSE PrintT(<<"BAD", T.id, l, r>>)
  /\ l' = l + 1 /\ tr' = tr

Finish ==
  /\ verdict = "run" /\ l = Len(T.ev) + 1
  /\ verdict' = "ok" /\ UNCHANGED <<tr, l, cvars>>
  /\ PrintT(<<"GOOD", T.id, Len(T.ev)>>)

TraceSpec == TraceInit /\ [][Step \/ Finish]_<<cvars, tr, l, verdict>>
=============================================================================
