---------------------------- MODULE RenderTrace ----------------------------
(* Checks recorded runs of the real code against the machine: each case of  *)
(* CASES (ndjson) is a job plus the observation made on Kajiki; the machine *)
(* is run on the job and must reach the observed result.  Every case gets a *)
(* verdict, written to OUT; "why" names the clause that failed.             *)
EXTENDS Render, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
TraceJob(j) == Cases[j]

ASSUME TLCSet(1, <<>>)

Init == job \in DOMAIN Cases /\ st = Start
Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<job, st>>

SetOf(s) == {s[i] : i \in DOMAIN s}

(* The observed outcome: output and gettext calls of a completed rendering, *)
(* or the template and line where the error surfaced.                       *)
Why ==
  LET o == J.obs IN
  IF st.status = "ok"
  THEN IF o.k # "ok" THEN "the template must render, but failed"
       ELSE IF J.cmpout /\ o.out # Result THEN "different output"
       ELSE IF J.haslog /\ SetOf(o.log) # SetOf(st.log) THEN "different messages for gettext"
       ELSE ""
  ELSE IF o.k = "ok" THEN "an error must be raised, but it rendered"
       ELSE IF o.k # "err" THEN "no result"
       ELSE IF st.ex # "" /\ st.ex \notin SetOf(o.bases) THEN "another exception must be raised"
       ELSE IF ~J.cmploc THEN ""
       ELSE IF ~o.hasloc THEN "the traceback shows no line of a template"
       ELSE IF o.file # N(st.eid).file THEN "the error is reported in another template"
       ELSE IF o.line < N(st.eid).l1 \/ o.line > N(st.eid).l2
            THEN "the error is reported at another line"
       ELSE ""

Verdict ==
  Done => TLCSet(1, Append(TLCGet(1),
            IF Why = "" THEN [j |-> job, why |-> ""]
            ELSE [j |-> job, why |-> Why, status |-> st.status, out |-> Result, log |-> st.log, ex |-> st.ex,
                  file |-> IF st.eid = 0 THEN "" ELSE N(st.eid).file,
                  l1 |-> IF st.eid = 0 THEN 0 ELSE N(st.eid).l1,
                  l2 |-> IF st.eid = 0 THEN 0 ELSE N(st.eid).l2]))

WriteVerdicts == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
