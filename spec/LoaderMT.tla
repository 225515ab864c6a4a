------------------------------ MODULE LoaderMT -----------------------------
(* C11: a loader used by several threads while the files change.  A load    *)
(* takes the lock, finds the file, compares it with the one it has compiled *)
(* and, when it has to, notes its time, reads it and keeps the new          *)
(* template.  Files are replaced and removed at any moment between these    *)
(* steps.                                                                   *)
EXTENDS Strings, TLC

Absent == [k |-> "absent"]
NoEntry == [id |-> 0]
Idle == [pc |-> "idle"]

VARIABLES fs, reload, cache, made, lock, th
svars == <<fs, reload, cache, made, lock, th>>

RECURSIVE FirstDir(_, _)
FirstDir(n, d) == IF d > Len(fs) THEN 0 ELSE IF fs[d][n] # Absent THEN d ELSE FirstDir(n, d + 1)

CallLoad(t, n) == /\ th[t].pc = "idle"
                  /\ th' = [th EXCEPT ![t] = [pc |-> "wait", n |-> n]]
                  /\ UNCHANGED <<fs, reload, cache, made, lock>>
Finish(t, r, id) == th' = [th EXCEPT ![t] = [pc |-> "done", n |-> th[t].n, r |-> r, id |-> id]]

Goto(t, pc, d, m) == th' = [th EXCEPT ![t] = [pc |-> pc, n |-> th[t].n, d |-> d, m |-> m]]

Enter(t) ==
  /\ th[t].pc = "wait" /\ lock = 0
  /\ LET n == th[t].n
         e == cache[n]
         d == FirstDir(n, 1)
     IN  IF e.id # 0 /\ ~reload
         THEN Finish(t, "ok", e.id) /\ UNCHANGED lock
         ELSE IF e.id # 0 /\ d = 0
         THEN Finish(t, "missing", 0) /\ UNCHANGED lock
         ELSE lock' = t /\ Goto(t, IF e.id # 0 THEN "compare" ELSE "find", d, 0)
  /\ UNCHANGED <<fs, reload, cache, made>>
(* a file that was found can be gone by now *)
Compare(t) ==
  /\ th[t].pc = "compare"
  /\ LET n == th[t].n
         f == fs[th[t].d][n]
         e == cache[n]
     IN  IF f = Absent THEN Finish(t, "missing", 0) /\ lock' = 0 /\ UNCHANGED cache
         ELSE IF e.d = th[t].d /\ e.m = f.m
         THEN Finish(t, "ok", e.id) /\ lock' = 0 /\ UNCHANGED cache
         ELSE /\ cache' = [cache EXCEPT ![n] = NoEntry]
              /\ Goto(t, "find", 0, 0)
              /\ UNCHANGED lock
  /\ UNCHANGED <<fs, reload, made>>
Find(t) ==
  /\ th[t].pc = "find"
  /\ LET d == FirstDir(th[t].n, 1)
     IN  IF d = 0 THEN Finish(t, "missing", 0) /\ lock' = 0
         ELSE Goto(t, "stat", d, 0) /\ UNCHANGED lock
  /\ UNCHANGED <<fs, reload, cache, made>>
Stat(t) ==
  /\ th[t].pc = "stat"
  /\ LET f == fs[th[t].d][th[t].n]
     IN  IF f = Absent THEN Finish(t, "missing", 0) /\ lock' = 0
         ELSE Goto(t, "read", th[t].d, f.m) /\ UNCHANGED lock
  /\ UNCHANGED <<fs, reload, cache, made>>
Read(t) ==
  /\ th[t].pc = "read"
  /\ LET n == th[t].n
         f == fs[th[t].d][n]
         id == Len(made) + 1
     IN  IF f = Absent THEN Finish(t, "missing", 0) /\ UNCHANGED <<cache, made>>
         ELSE IF f.k = "bad" THEN Finish(t, "bad", 0) /\ UNCHANGED <<cache, made>>
         ELSE /\ made' = Append(made, f)
              /\ cache' = [cache EXCEPT ![n] = [id |-> id, d |-> th[t].d, m |-> th[t].m]]
              /\ Finish(t, "ok", id)
  /\ lock' = 0
  /\ UNCHANGED <<fs, reload>>
Internal(t) == Enter(t) \/ Compare(t) \/ Find(t) \/ Stat(t) \/ Read(t)

Return(t) == /\ th[t].pc = "done"
             /\ th' = [th EXCEPT ![t] = Idle]
             /\ UNCHANGED <<fs, reload, cache, made, lock>>
Change(d, n, f) == /\ fs' = [fs EXCEPT ![d][n] = f]
                   /\ UNCHANGED <<reload, cache, made, lock, th>>
=============================================================================
