---------------------------- MODULE SessionTrace ---------------------------
(* Recorded sessions of the real code against Sessions.tla.                 *)
EXTENDS Sessions, Json, IOUtils, TLC

VARIABLES case, i
vars == <<phase, got, case, i>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[case]
TraceWant(s) == C.want[s]
Ev == C.events[i]

ASSUME TLCSet(1, <<>>)
Init == /\ case \in DOMAIN Cases
        /\ i = 1
        /\ phase = [s \in DOMAIN C.want |-> "new"]
        /\ got = [s \in DOMAIN C.want |-> ""]
Match == CASE Ev.r = "chunk" -> Pull(Ev.s, Ev.t)
           [] Ev.r = "end"   -> End(Ev.s, Ev.t)
           [] Ev.r = "err"   -> Raise(Ev.s, Ev.t)
           [] Ev.r = "drop"  -> Drop(Ev.s)
           [] Ev.r = "again" -> Again(Ev.s)
           [] OTHER -> FALSE
More == i <= Len(C.events)
Next == More /\ i' = i + 1 /\ UNCHANGED case /\ Match
Spec == Init /\ [][Next]_vars

Why == IF More THEN "a rendering is not what its template and context give"
       ELSE IF ~C.pure THEN "rendering changed its context"
       ELSE ""
Verdict == (~More \/ ~ENABLED Next) =>
             TLCSet(1, Append(TLCGet(1), [j |-> case, why |-> Why, at |-> i]))
WriteVerdicts == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
