------------------------------ MODULE Sessions ------------------------------
(* C12: several renderings (sessions) of compiled templates at once.  A     *)
(* session is an instance of a template with its own context; it is pulled  *)
(* chunk by chunk, drained, dropped half way, or rendered again.  The       *)
(* sessions are independent: what a session has output is a prefix of the   *)
(* result the machine of Render.tla gives for its template and context,     *)
(* and all of it at the end, whatever the other sessions do.                *)
EXTENDS Strings

CONSTANT Want(_)            \* the result of session s: [status, out]
VARIABLES phase, got        \* per session

Sess == DOMAIN phase
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

CanPull(s)  == phase[s] \in {"new", "open"}
CanAgain(s) == phase[s] \in {"done", "failed", "dropped"}
CanDrop(s)  == phase[s] = "open"

(* one more chunk, t *)
Pull(s, t) == /\ CanPull(s)
              /\ Prefix(got[s] \o t, Want(s).out)
              /\ phase' = [phase EXCEPT ![s] = "open"]
              /\ got' = [got EXCEPT ![s] = @ \o t]
(* the rest, t, then the end *)
End(s, t) == /\ CanPull(s)
             /\ Want(s).status = "ok"
             /\ got[s] \o t = Want(s).out
             /\ phase' = [phase EXCEPT ![s] = "done"]
             /\ got' = [got EXCEPT ![s] = @ \o t]
Raise(s, t) == /\ CanPull(s)
               /\ Want(s).status = "err"
               /\ Prefix(got[s] \o t, Want(s).out)
               /\ phase' = [phase EXCEPT ![s] = "failed"]
               /\ got' = [got EXCEPT ![s] = @ \o t]
Drop(s) == /\ CanDrop(s)
           /\ phase' = [phase EXCEPT ![s] = "dropped"]
           /\ UNCHANGED got
(* render() of the same instance once more *)
Again(s) == /\ CanAgain(s)
            /\ phase' = [phase EXCEPT ![s] = "new"]
            /\ got' = [got EXCEPT ![s] = ""]

TypeOK == \A s \in Sess : phase[s] \in {"new", "open", "done", "failed", "dropped"}
Faithful == \A s \in Sess :
              /\ Prefix(got[s], Want(s).out)
              /\ phase[s] = "done" => got[s] = Want(s).out
=============================================================================
