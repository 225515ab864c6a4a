---------------------------- MODULE LoaderTrace ----------------------------
(* Recorded histories of real loaders against Loader.tla.                   *)
EXTENDS Loader, Json, IOUtils

VARIABLES case, i, lab      \* lab: what the observer calls the templates
vars == <<fs, ls, res, case, i, lab>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[case]
Ev == C.events[i]
O == C.obs[i]

ASSUME TLCSet(1, <<>>)
NameSet == {C.names[k] : k \in DOMAIN C.names}
Init == /\ case \in DOMAIN Cases
        /\ i = 1
        /\ fs = [d \in 1..C.dirs |-> [n \in NameSet |-> Absent]]
        /\ ls = [l \in DOMAIN C.reload |->
                   [reload |-> C.reload[l], cache |-> [n \in NameSet |-> NoEntry], made |-> <<>>]]
        /\ res = [r |-> "ok", id |-> 0, out |-> ""]
        /\ lab = <<>>

(* template `id` of loader l is the one the observer calls x *)
Same(l, id, x) ==
  IF \E k \in DOMAIN lab : lab[k].x = x \/ (lab[k].l = l /\ lab[k].id = id)
  THEN (\E k \in DOMAIN lab : lab[k] = [l |-> l, id |-> id, x |-> x]) /\ UNCHANGED lab
  ELSE lab' = Append(lab, [l |-> l, id |-> id, x |-> x])
IdOf(x) == lab[CHOOSE k \in DOMAIN lab : lab[k].x = x].id

DoWrite  == Ev.a = "write" /\ WriteFile(Ev.d, Ev.n, Ev.f) /\ UNCHANGED lab
DoRemove == Ev.a = "remove" /\ RemoveFile(Ev.d, Ev.n) /\ UNCHANGED lab
DoLoad   == /\ Ev.a = "load" /\ Load(Ev.l, Ev.n)
            /\ O.r = res'.r
            /\ IF O.r = "ok" THEN Same(Ev.l, res'.id, O.id) ELSE UNCHANGED lab
DoRender == /\ Ev.a = "render" /\ UNCHANGED lab
            /\ RenderTpl(Ev.l, IdOf(Ev.x))
            /\ O.r = res'.r /\ O.out = res'.out
More == i <= Len(C.events)
Next == More /\ i' = i + 1 /\ UNCHANGED case /\ (DoWrite \/ DoRemove \/ DoLoad \/ DoRender)
Spec == Init /\ [][Next]_vars

Inv == \A l \in DOMAIN ls, n \in NameSet : Current(l, n) /\ Stable(l, n)

Should == IF ~More THEN [r |-> "", out |-> ""]
          ELSE IF Ev.a = "load" THEN [r |-> LoadF(fs, ls[Ev.l], Ev.n).r, out |-> ""]
          ELSE IF Ev.a = "render"
               THEN LET y == RenderF(fs, ls[Ev.l], IdOf(Ev.x), "") IN [r |-> y.r, out |-> y.out]
               ELSE [r |-> "ok", out |-> ""]
Why == IF More THEN "the loader does not give the template it must give" ELSE ""
Verdict == (~More \/ ~ENABLED Next) =>
             TLCSet(1, Append(TLCGet(1), [j |-> case, why |-> Why, at |-> i, should |-> Should]))
WriteVerdicts == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
