------------------------------ MODULE GenWith ------------------------------
(* C06: every nesting of constructs that bind the same two variables; both  *)
(* are read before, inside and after each one.                              *)
EXTENDS GenBase

X == eV("x")
Y == eV("y")
Read == <<nE(X), nT(","), nE(Y), nT(";")>>
Plus(e) == eAdd(e, eI(10))
D == 11
Wrap(d, kids) ==
  CASE d = 1 -> kids
    [] d = 2 -> <<nDir(dWith(<<bind("x", eI(2))>>), kids)>>
    [] d = 3 -> <<nDir(dWith(<<bind("x", Plus(X))>>), kids)>>
    [] d = 4 -> <<nDir(dWith(<<bind("x", Plus(Y)), bind("y", Plus(X))>>), kids)>>
    [] d = 5 -> <<nDir(dWith(<<bind("y", X), bind("x", Y)>>), kids)>>
    [] d = 6 -> <<nDir(dFor(<<"x">>, eL(<<eI(5), eI(6)>>)), kids)>>
    [] d = 7 -> <<nDir(dFor(<<"y">>, eL(<<Plus(X), Plus(Y)>>)), kids)>>
    [] d = 8 -> <<nPy("x", Plus(X))>> \o kids
    [] d = 9 -> <<nDirs(<<dWith(<<bind("x", Plus(Y))>>), dFor(<<"y">>, eL(<<eI(7), eI(8)>>))>>, "b", kids)>>
    [] d = 10 -> <<nDir(dIf(eLt(X, eI(12))), <<nDir(dWith(<<bind("x", Plus(X))>>), kids)>>)>>
    [] d = 11 -> <<nDir(dWith(<<bind("x", eI(3)), bind("x", Plus(X))>>), kids)>>

Tree(c) == Read \o Wrap(c[1], Read \o Wrap(c[2], Read \o Wrap(c[3], Read) \o Read) \o Read) \o Read
MyDims == <<D, D, D, 3>>
(* where: variables of the page, parameters of a function, of an inner one *)
MyBuild(c) ==
  LET body == Tree(c)
      params == <<par("x"), par("y")>>
      args == <<eI(1), eI(0)>>
      root == CASE c[4] = 1 -> <<nPy("x", eI(1)), nPy("y", eI(0))>> \o body
                [] c[4] = 2 -> <<nDir(dDef("f", params), body), nE(eCall("f", args)), nE(eCall("f", args))>>
                [] c[4] = 3 -> <<nDir(dDef("g", <<par("x")>>),
                                      <<nDir(dDef("f", params), body), nE(eCall("f", args)), nE(X)>>),
                                 nE(eCall("g", <<eI(4)>>))>>
  IN  JobOf(<<Tpl("t.html", <<nEl("p", root)>>)>>, <<>>, "id")
=============================================================================
