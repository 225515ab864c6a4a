---------------------------- MODULE DollarTrace -----------------------------
(* Recorded renderings of strings with dollar signs against Dollar.tla.     *)
EXTENDS Dollar, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
ASSUME TLCSet(1, <<>>)

VARIABLES j, done
Init == j \in DOMAIN Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j
Spec == Init /\ [][Next]_<<j, done>>

Why(c, m) ==
  IF m.status = "unspec" THEN ""
  ELSE IF c.k \notin {"ok", "err"} THEN "no result"
  ELSE IF m.status = "err" THEN (IF c.k = "ok" THEN "an error must be raised, but it rendered" ELSE "")
  ELSE IF c.k # "ok" THEN "the template must render, but failed"
  ELSE IF c.out # m.out THEN "different output"
  ELSE ""
Verdict == done => LET c == Cases[j] m == Meaning(c.place, c.s) IN
           TLCSet(1, Append(TLCGet(1), [j |-> j, why |-> Why(c, m), status |-> m.status, out |-> m.out]))
WriteVerdicts == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
