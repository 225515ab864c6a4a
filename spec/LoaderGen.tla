----------------------------- MODULE LoaderGen -----------------------------
(* Histories of Loader.tla that cover every transition between its states   *)
(* (up to the numbering of templates), each with the expected results; the  *)
(* histories end with a load and a rendering of every name.                 *)
EXTENDS Loader, Json, IOUtils

VARIABLES hist, last      \* last: the template the application got last, per name
vars == <<fs, ls, res, hist, last>>

Family == IOEnv.FAMILY
Deep == IOEnv.VERIF_TIER # "quick"
File(k, v, t, m) == [k |-> k, v |-> v, t |-> t, m |-> m]
Leaf(v, m) == File("leaf", v, "", m)
Bad(m) == File("bad", "x", "", m)

Names == IF Family # "deps" THEN {"a"} ELSE {"a", "b"}
NDirs == IF Family # "deps" THEN 2 ELSE 1
Files(d, n) ==
  IF Family # "deps" THEN {Leaf(v, m) : v \in {"u", "w"}, m \in 1..2} \cup {Bad(1), Bad(2)}
  ELSE IF n = "a"
       THEN {Leaf("u", 1), File("inc", "i", "b", 1), File("ext", "e", "b", 1)}
            \cup (IF Deep THEN {Leaf("u", 2), File("inc", "i", "b", 2), File("ext", "e", "b", 2)} ELSE {})
       ELSE {Leaf("x", 1), Leaf("y", 2), Bad(3)} \cup (IF Deep THEN {Leaf("y", 1), Bad(2)} ELSE {})
Loaders == IF Family = "search" /\ Deep THEN <<TRUE, FALSE>>
           ELSE IF Family = "fixed" THEN <<FALSE>> ELSE <<TRUE>>

NewLoader(r) == [reload |-> r, cache |-> [n \in Names |-> NoEntry], made |-> <<>>]
Init == /\ fs = [d \in 1..NDirs |-> [n \in Names |-> Absent]]
        /\ ls = [l \in DOMAIN Loaders |-> NewLoader(Loaders[l])]
        /\ res = [r |-> "ok", id |-> 0, out |-> ""]
        /\ hist = <<>>
        /\ last = [l \in DOMAIN Loaders |-> [n \in Names |-> 0]]

Ev(a, l, d, n, f) == hist' = Append(hist, [a |-> a, l |-> l, d |-> d, n |-> n, f |-> f, res |-> res'])
Next ==
  \/ /\ UNCHANGED last
     /\ \E d \in 1..NDirs, n \in Names :
          \/ \E f \in Files(d, n) : f # fs[d][n] /\ WriteFile(d, n, f) /\ Ev("write", 0, d, n, f)
          \/ RemoveFile(d, n) /\ Ev("remove", 0, d, n, Absent)
  \/ \E l \in DOMAIN ls, n \in Names :
       \/ /\ Load(l, n) /\ Ev("load", l, 0, n, Absent)
          /\ last' = [last EXCEPT ![l][n] = IF res'.r = "ok" THEN res'.id ELSE @]
       \/ /\ last[l][n] # 0
          /\ RenderTpl(l, last[l][n])
          /\ Ev("render", l, last[l][n], n, Absent)
          /\ UNCHANGED last
Spec == Init /\ [][Next]_vars

(* a template is known by its content, not by its number *)
View == <<fs, [l \in DOMAIN ls |->
                 [n \in Names |-> <<IF ls[l].cache[n].id = 0 THEN <<>>
                                    ELSE <<ls[l].cache[n].d, ls[l].made[ls[l].cache[n].id]>>,
                                    IF last[l][n] = 0 THEN <<>> ELSE ls[l].made[last[l][n]],
                                    last[l][n] = ls[l].cache[n].id>>]]>>

Inv == \A l \in DOMAIN ls, n \in Names : Current(l, n) /\ Stable(l, n)

ASSUME TLCSet(1, <<>>)
(* closing observations: load and render every name, with every loader *)
RECURSIVE Probe(_, _, _)
Probe(todo, lss, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET l == Head(todo).l
           n == Head(todo).n
           x == LoadF(fs', lss[l], n)
           e1 == [a |-> "load", l |-> l, d |-> 0, n |-> n, f |-> Absent,
                  res |-> [r |-> x.r, id |-> x.id, out |-> ""]]
       IN  IF x.r # "ok" THEN Probe(Tail(todo), [lss EXCEPT ![l] = x.ls], Append(acc, e1))
           ELSE LET y == RenderF(fs', x.ls, x.id, "")
                    e2 == [a |-> "render", l |-> l, d |-> x.id, n |-> n, f |-> Absent,
                           res |-> [r |-> y.r, id |-> 0, out |-> y.out]]
                IN  Probe(Tail(todo), [lss EXCEPT ![l] = y.ls], acc \o <<e1, e2>>)
Todo == LET one(l) == IF Family # "deps" THEN <<[l |-> l, n |-> "a"]>>
                      ELSE <<[l |-> l, n |-> "a"], [l |-> l, n |-> "b"]>>
        IN  IF Len(Loaders) = 1 THEN one(1) ELSE one(1) \o one(2)
Emit == TLCSet(1, Append(TLCGet(1), [h |-> hist', p |-> Probe(Todo, ls', <<>>)]))
WriteAll == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
