---------------------------- MODULE ExtractTrace ---------------------------
(* C14: the messages extracted from a template are those it can look up,    *)
(* each at its line; gettext calls in expressions are extracted on demand.  *)
EXTENDS Render, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
TraceJob(j) == Cases[j]
ASSUME TLCSet(1, <<>>)

Init == job \in DOMAIN Cases /\ st = Start
Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<job, st>>

Msgs == MessagesOf(T(1), T(1).root, "")
Ids_(s) == {s[i].m : i \in DOMAIN s}

(* whatever a run looks up is among the messages of the template *)
Covered == \A i \in DOMAIN st.log : \E m \in Msgs : m.m = st.log[i]

(* gettext calls in expressions *)
RECURSIVE CallsOf(_)
CallsOf(ids) ==
  UNION {LET n == N(ids[i]) IN
         IF n.op = "expr" THEN (IF n.e.o = "tr" THEN {[m |-> n.e.s, l1 |-> n.l1, l2 |-> n.l2]} ELSE {})
         ELSE IF n.op = "cdata" THEN CallsOf(n.kids)
         ELSE IF n.op = "el" /\ n.content.o = "no" /\ ~\E k \in DOMAIN n.dirs : n.dirs[k].d = "replace"
         THEN CallsOf(n.kids)
         ELSE {} : i \in DOMAIN ids}
Calls == CallsOf(T(1).root)

Why ==
  LET ext == J.ext
      all == Msgs \cup (IF J.python THEN Calls ELSE {})
      lost == {m \in all : m.m \notin Ids_(ext)}
      odd == {i \in DOMAIN ext : ~\E m \in all : m.m = ext[i].m}
      off == {i \in DOMAIN ext : ~\E m \in all : m.m = ext[i].m /\ m.l1 <= ext[i].l /\ ext[i].l <= m.l2}
  IN  IF lost # {} THEN "a message is not extracted: " \o (CHOOSE m \in lost : TRUE).m
      ELSE IF odd # {} THEN "something else is extracted"
      ELSE IF off # {} THEN "a message is extracted with another line"
      ELSE ""
Verdict == Done => TLCSet(1, Append(TLCGet(1), [j |-> job, why |-> Why, msgs |-> Msgs]))
WriteVerdicts == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
