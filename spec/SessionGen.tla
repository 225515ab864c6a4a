---------------------------- MODULE SessionGen -----------------------------
(* Schedules of Sessions.tla: every sequence of MaxLen actions over two     *)
(* sessions, up to the order of the sessions.  An abstract session has      *)
(* three chunks; the real ones are pulled as the schedule says.             *)
EXTENDS Sessions, Json, IOUtils, TLC

VARIABLE hist
vars == <<phase, got, hist>>
MaxLen == IF IOEnv.VERIF_TIER = "quick" THEN 5 ELSE 6
TwoWant(s) == [status |-> "ok", out |-> "ccc"]

ASSUME TLCSet(1, <<>>)
Act(a, s) == hist' = Append(hist, [a |-> a, s |-> s])
First(s) == s = 1 \/ hist # <<>>
Init == phase = <<"new", "new">> /\ got = <<"", "">> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E s \in Sess :
             /\ First(s)
             /\ \/ Act("pull", s) /\ Pull(s, "c")
                \/ Act("drain", s) /\ End(s, SubSeq("ccc", Len(got[s]) + 1, 3))
                \/ Act("drop", s) /\ Drop(s)
                \/ Act("again", s) /\ Again(s)
Spec == Init /\ [][Next]_vars
Full == Len(hist) = MaxLen
Emit == Full => TLCSet(1, Append(TLCGet(1), [h |-> hist]))
WriteAll == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
