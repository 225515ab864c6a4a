--------------------------- MODULE LoaderMTTrace ---------------------------
(* Recorded calls and returns of real threads against LoaderMT.tla: there   *)
(* must be a way to place the steps of the loads, and the moments at which  *)
(* the files changed, between them.                                         *)
EXTENDS LoaderMT, Json, IOUtils

VARIABLES case, i, lab, w   \* w: a change under way
vars == <<svars, case, i, lab, w>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[case]
Ev == C.events[i]
More == i <= Len(C.events)

ASSUME TLCSet(1, [j \in DOMAIN Cases |-> 0])
NameSet == {C.names[k] : k \in DOMAIN C.names}
Init == /\ case \in DOMAIN Cases /\ i = 1
        /\ fs = [d \in 1..C.dirs |-> [n \in NameSet |-> Absent]]
        /\ reload = C.reload
        /\ cache = [n \in NameSet |-> NoEntry]
        /\ made = <<>> /\ lock = 0
        /\ th = [t \in 1..C.threads |-> Idle]
        /\ lab = <<>> /\ w = Idle

Same(id, x) ==
  IF \E k \in DOMAIN lab : lab[k].x = x \/ lab[k].id = id
  THEN (\E k \in DOMAIN lab : lab[k] = [id |-> id, x |-> x]) /\ UNCHANGED lab
  ELSE lab' = Append(lab, [id |-> id, x |-> x])
Text(f) == "<p>" \o f.v \o "|" \o f.v \o "</p>"

Step == i' = i + 1
Observed ==
  \/ Ev.a = "call" /\ CallLoad(Ev.t, Ev.n) /\ Step /\ UNCHANGED <<lab, w>>
  \/ /\ Ev.a = "ret" /\ Return(Ev.t) /\ Step
     /\ th[Ev.t].r = Ev.r
     /\ IF Ev.r = "ok" THEN Text(made[th[Ev.t].id]) = Ev.out /\ Same(th[Ev.t].id, Ev.id)
                       ELSE UNCHANGED lab
     /\ UNCHANGED w
  \/ Ev.a \in {"wwrite", "wremove"} /\ w' = [pc |-> "change", e |-> Ev] /\ Step /\ UNCHANGED <<svars, lab>>
  \/ Ev.a = "wend" /\ w.pc = "changed" /\ w' = Idle /\ Step /\ UNCHANGED <<svars, lab>>
Hidden ==
  /\ UNCHANGED <<i, lab>>
  /\ \/ (\E t \in DOMAIN th : Internal(t)) /\ UNCHANGED w
     \/ /\ w.pc = "change" /\ w' = [pc |-> "changed"]
        /\ Change(w.e.d, w.e.n, IF w.e.a = "wwrite" THEN w.e.f ELSE Absent)
Next == More /\ UNCHANGED case /\ (Observed \/ Hidden)
Spec == Init /\ [][Next]_vars

(* how far each case gets *)
Reach == (i > TLCGet(1)[case]) => TLCSet(1, [TLCGet(1) EXCEPT ![case] = i])
Verdicts == [j \in DOMAIN Cases |->
               [j |-> j, at |-> TLCGet(1)[j],
                why |-> IF TLCGet(1)[j] > Len(Cases[j].events) THEN ""
                        ELSE "no order of the steps of the loads gives what the threads observed"]]
WriteVerdicts == ndJsonSerialize(IOEnv.OUT, Verdicts)
=============================================================================
