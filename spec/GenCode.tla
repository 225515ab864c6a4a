------------------------------ MODULE GenCode ------------------------------
(* C23: blocks of code: every pair of statements, one of them possibly      *)
(* inside a compound one, in every place a block can be written.            *)
EXTENDS GenBase

sSet(n, e) == [s |-> "set", n |-> n, e |-> e]
sAug(n, e) == [s |-> "aug", n |-> n, e |-> e]
sIf(e, a, b) == [s |-> "if", n |-> "", e |-> e, a |-> a, b |-> b]
sFor(n, e, a) == [s |-> "for", n |-> n, e |-> e, a |-> a]
sPass == [s |-> "pass", n |-> ""]
nCode(ss) == Where @@ [op |-> "code", ss |-> ss]
eLam(ps, x) == [o |-> "lam", ps |-> ps, x |-> x]

Stmts == 11
Stmt(i) ==
  CASE i = 1 -> sSet("x", eS("one"))
    [] i = 2 -> sSet("x", eS("l1\n  l2\n\nl4"))
    [] i = 3 -> sSet("x", eAdd(eV("x"), eS("\\n$y${y}")))
    [] i = 4 -> sAug("x", eS("+<&\">"))
    [] i = 5 -> sSet("y", eV("x"))
    [] i = 6 -> sSet("fn", eLam(<<"q">>, eAdd(eV("q"), eV("x"))))
    [] i = 7 -> sSet("x", eCall("fn", <<eS("#")>>))
    [] i = 8 -> sSet("x", eS("%py {% end %} ?]]"))
    [] i = 9 -> sPass
    [] i = 10 -> sSet("x", eErr)
    [] i = 11 -> sSet("x", eS("'\"\t\\"))
Wraps == 6
Wrapped(w, s) ==
  CASE w = 1 -> <<s>>
    [] w = 2 -> <<sIf(eV("yes"), <<s>>, <<>>)>>
    [] w = 3 -> <<sIf(eNot(eV("yes")), <<sPass>>, <<s, sAug("x", eS(";"))>>)>>
    [] w = 4 -> <<sFor("k", eL(<<eS("1"), eS("2")>>), <<s, sAug("x", eV("k"))>>)>>
    [] w = 5 -> <<sFor("k", eL(<<eS("1"), eS("2")>>), <<sIf(eEq(eV("k"), eS("2")), <<s>>, <<sAug("x", eS("."))>>)>>)>>
    [] w = 6 -> <<sIf(eNot(eV("yes")), <<s>>, <<>>)>>

Show2 == <<nT("["), nE(eV("x")), nT(","), nE(eV("y")), nT("]")>>
Init2 == nCode(<<sSet("x", eS("x0")), sSet("y", eS("y0")), sSet("fn", eLam(<<"q">>, eV("q")))>>)
Places == 9
Place(p, ss) ==
  LET c == nCode(ss)
      in == <<Init2, c>> \o Show2
  IN  CASE p = 1 -> in
        [] p = 2 -> <<nDir(dDef("f", <<>>), in), nE(eCall("f", <<>>)), nE(eCall("f", <<>>))>>
        [] p = 3 -> <<Init2, nDir(dFor(<<"z">>, eV("two")), <<c>> \o Show2)>> \o Show2
        [] p = 4 -> <<Init2, nDir(dIf(eNot(eV("yes"))), <<c>>), nDir(dElse, <<c>>)>> \o Show2
        [] p = 5 -> <<Init2, nEl("b", <<nT("t"), c, nT("u")>>)>> \o Show2
        [] p = 6 -> <<nDir(dDef("g", <<>>), <<nDir(dDef("f", <<>>), in), nE(eCall("f", <<>>))>>), nE(eCall("g", <<>>))>>
        [] p = 7 -> <<nDir(dBlock("bl"), in)>>
        [] p = 8 -> <<nDir(dDef("h", <<par("cb")>>), <<nE(eCall("cb", <<>>)), nE(eCall("cb", <<>>))>>),
                      nDir(dCall(eCall("h", <<Caller>>), <<>>), in)>>
        [] p = 9 -> Show2               \* the code is before the root

MyDims == <<Stmts, Stmts, Wraps, Places, 2>>
MyBuild(c) ==
  LET xml == c[5] = 1
      ss == <<Stmt(c[1])>> \o Wrapped(c[3], Stmt(c[2]))
      kids == Place(c[4], ss)
      ctx == <<nv("yes", BoolV(TRUE)), nv("two", ListV(<<IntV(1), IntV(2)>>))>>
      skip == \/ ~xml /\ c[4] \in {5, 9}
              \/ ~xml /\ 8 \in {c[1], c[2]}      \* ends the block that contains it
              \* one error is enough
              \/ c[1] = 10 /\ c[2] > 2
              \/ ~Deep /\ c[4] \in {3, 4, 6, 7} /\ c[1] > 5
  IN  IF skip THEN NoJob
      ELSE IF ~xml THEN JobOf(<<TextTpl("t.txt", kids)>>, ctx, "id")
      ELSE JobOf(<<Tpl("t.html", (IF c[4] = 9 THEN <<Init2, nCode(ss)>> ELSE <<>>) \o <<nEl("p", kids)>>)>>, ctx, "id")
=============================================================================
