--------------------------- MODULE LoaderMTCheck ---------------------------
(* The protocol of LoaderMT.tla itself: with reload every load gives a      *)
(* content the file had between the call and the return; without it all     *)
(* loads give the same template; one file is not compiled twice without a   *)
(* reason; the lock is always released.                                     *)
EXTENDS LoaderMT, Integers, FiniteSets, IOUtils

VARIABLES pend, left, changes, bad
vars == <<svars, pend, left, changes, bad>>

Threads == 1..(IF IOEnv.VERIF_TIER = "quick" THEN 2 ELSE 3)
Names == {"a"}
Dirs == 1..2
F(m) == [k |-> "leaf", v |-> "v", t |-> "", m |-> m]
Cur(n) == LET d == FirstDir(n, 1) IN IF d = 0 THEN Absent ELSE fs[d][n]
CurP(n) == LET d == FirstDir(n, 1)' IN IF d = 0 THEN Absent ELSE fs'[d][n]

Init == /\ fs = [d \in Dirs |-> [n \in Names |-> IF d = 2 THEN F(0) ELSE Absent]]
        /\ reload \in BOOLEAN
        /\ cache = [n \in Names |-> NoEntry]
        /\ made = <<>> /\ lock = 0
        /\ th = [t \in Threads |-> Idle]
        /\ pend = [t \in Threads |-> {}]
        /\ left = [t \in Threads |-> 2]
        /\ changes = 0
        /\ bad = FALSE

DoCall(t, n) == /\ left[t] > 0 /\ CallLoad(t, n)
                /\ left' = [left EXCEPT ![t] = @ - 1]
                /\ pend' = [pend EXCEPT ![t] = {Cur(n)}]
                /\ UNCHANGED <<changes, bad>>
DoChange(d, n, f) == /\ changes < 2 /\ Change(d, n, f)
                     /\ changes' = changes + 1
                     /\ pend' = [t \in Threads |-> IF th[t].pc = "idle" THEN {} ELSE pend[t] \cup {CurP(n)}
                                                   \cup {fs'[e][n] : e \in Dirs}]
                     /\ UNCHANGED <<left, bad>>
DoReturn(t) == /\ Return(t) /\ UNCHANGED <<left, changes>>
               /\ pend' = [pend EXCEPT ![t] = {}]
               /\ bad' = (bad \/ IF th[t].r = "ok"
                                 THEN /\ (reload => made[th[t].id] \notin pend[t])
                                      /\ (~reload => th[t].id # 1)
                                 ELSE Absent \notin pend[t])
Next == \/ \E t \in Threads : \/ \E n \in Names : DoCall(t, n)
                              \/ Internal(t) /\ UNCHANGED <<pend, left, changes, bad>>
                              \/ DoReturn(t)
        \/ \E d \in Dirs, n \in Names : \/ DoChange(d, n, F(changes + 1))
                                        \/ fs[d][n] # Absent /\ DoChange(d, n, Absent)
Spec == Init /\ [][Next]_vars

Fresh == ~bad
(* every new template has a reason: a change, or the first load *)
Few == Cardinality(DOMAIN made) <= 1 + 2 * changes
Released == (\A t \in Threads : th[t].pc \in {"idle", "wait", "done"}) => lock = 0
Progress == ENABLED Next \/ (\A t \in Threads : left[t] = 0 /\ th[t].pc = "idle")
=============================================================================
