------------------------------- MODULE Loader ------------------------------
(* C10: a file loader over directories that change.  A file has a content   *)
(* and a modification time; the loader searches its directories in order,   *)
(* keeps the templates it has compiled, and with reload=True compiles a     *)
(* file again when it is not the one it has compiled: another directory or  *)
(* another modification time, older or newer.  A template that has been     *)
(* loaded keeps its content; the templates it includes or extends are       *)
(* loaded when it is rendered.                                              *)
EXTENDS Strings, TLC

Absent == [k |-> "absent"]
NoEntry == [id |-> 0]

(* fs : directory -> name -> file [k, v, t, m]                              *)
(*      k: "leaf", "inc" (includes t), "ext" (extends t), "bad"             *)
(* ls : the loader [reload, cache : name -> [id, d, m], made : Seq(file)],  *)
(*      made[id] is the content of the template number id                   *)

RECURSIVE FirstDir(_, _, _)
FirstDir(fs, n, d) ==
  IF d > Len(fs) THEN 0 ELSE IF fs[d][n] # Absent THEN d ELSE FirstDir(fs, n, d + 1)

Compile(fs, ls, n, d) ==
  LET f == fs[d][n]
      id == Len(ls.made) + 1
  IN  IF f.k = "bad"
      THEN [r |-> "bad", id |-> 0, ls |-> [ls EXCEPT !.cache[n] = NoEntry]]
      ELSE [r |-> "ok", id |-> id,
            ls |-> [ls EXCEPT !.cache[n] = [id |-> id, d |-> d, m |-> f.m], !.made = Append(@, f)]]

LoadF(fs, ls, n) ==
  LET d == FirstDir(fs, n, 1)
      e == ls.cache[n]
  IN  IF e.id # 0 /\ ~ls.reload THEN [r |-> "ok", id |-> e.id, ls |-> ls]
      ELSE IF d = 0 THEN [r |-> "missing", id |-> 0, ls |-> ls]
      ELSE IF e.id # 0 /\ e.d = d /\ e.m = fs[d][n].m THEN [r |-> "ok", id |-> e.id, ls |-> ls]
      ELSE Compile(fs, ls, n, d)

(* b: what overrides the block, or "" *)
RECURSIVE RenderF(_, _, _, _)
RenderF(fs, ls, id, b) ==
  LET f == ls.made[id]
      blk == IF b = "" THEN f.v ELSE b
  IN  IF f.k = "leaf"
      THEN [r |-> "ok", out |-> "<p>" \o f.v \o "|" \o blk \o "</p>", ls |-> ls]
      ELSE LET x == LoadF(fs, ls, f.t)
           IN  IF x.r # "ok" THEN [r |-> x.r, out |-> "", ls |-> x.ls]
               ELSE LET y == RenderF(fs, x.ls, x.id, IF f.k = "ext" THEN blk ELSE "")
                    IN  IF y.r # "ok" \/ f.k = "ext" THEN y
                        ELSE [y EXCEPT !.out = "<div>" \o f.v \o @ \o blk \o "</div>"]

-----------------------------------------------------------------------------
(* The machine: the environment changes files, the application loads and    *)
(* renders.                                                                 *)
VARIABLES fs, ls, res       \* res: result of the last action

WriteFile(d, n, f) == /\ fs' = [fs EXCEPT ![d][n] = f]
                      /\ res' = [r |-> "ok", id |-> 0, out |-> ""]
                      /\ UNCHANGED ls
RemoveFile(d, n) == /\ fs[d][n] # Absent
                    /\ fs' = [fs EXCEPT ![d][n] = Absent]
                    /\ res' = [r |-> "ok", id |-> 0, out |-> ""]
                    /\ UNCHANGED ls
Load(l, n) == LET x == LoadF(fs, ls[l], n)
              IN  /\ ls' = [ls EXCEPT ![l] = x.ls]
                  /\ res' = [r |-> x.r, id |-> x.id, out |-> ""]
                  /\ UNCHANGED fs
RenderTpl(l, id) == LET x == RenderF(fs, ls[l], id, "")
                    IN  /\ id \in DOMAIN ls[l].made
                        /\ ls' = [ls EXCEPT ![l] = x.ls]
                        /\ res' = [r |-> x.r, id |-> 0, out |-> x.out]
                        /\ UNCHANGED fs

(* With reload=True, a load gives the file that is there now, unless it has *)
(* the time of the one compiled before.                                     *)
Current(l, n) ==
  LET x == LoadF(fs, ls[l], n)
      d == FirstDir(fs, n, 1)
  IN  /\ (ls[l].reload /\ d = 0) => x.r = "missing"
      /\ (x.r = "ok" /\ ls[l].reload) =>
           LET f == x.ls.made[x.id] IN f.m = fs[d][n].m
(* With reload=False, once loaded it stays. *)
Stable(l, n) == (~ls[l].reload /\ ls[l].cache[n].id # 0) => LoadF(fs, ls[l], n).id = ls[l].cache[n].id
=============================================================================
