----------------------------- MODULE GenError ------------------------------
(* C16: an expression that fails, at every kind of place, after every kind  *)
(* of multi-line construct, in every kind of enclosing function.            *)
EXTENDS GenBase

(* what precedes it *)
Befores == 12
Before(i, x) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> <<nT("one\ntwo\n")>>
    [] i = 3 -> <<nT("\n\n  a "), nDollar, nT("\n")>>
    [] i = 4 -> IF x THEN <<nComment(" c\n c\n")>> ELSE <<nT("c\n\\\nd")>>
    [] i = 5 -> IF x THEN <<nCdata(<<nT("a\n\nb"), nE(eV("v")), nT("\n")>>)>> ELSE <<nT("a\n\nb"), nE(eV("v")), nT("\n")>>
    [] i = 6 -> <<nE(eV("v")), nT("\n"), nE(eV("v")), nT("\n\n"), nE(eAdd(eV("v"), eS("\n")))>>
    [] i = 7 -> <<nDir(dIf(eV("t")), <<nT("\ny\n")>>), nDir(dElse, <<nT("\n\nn")>>), nT("\n")>>
    [] i = 8 -> <<nDir(dFor(<<"k">>, eV("two")), <<nT("\n"), nE(eV("k")), nT("\n")>>)>>
    [] i = 9 -> <<nDir(dDef("g", <<>>), <<nT("\n\nin g\n")>>), nT("\n"), nE(eCall("g", <<>>))>>
    [] i = 10 -> IF x THEN <<nEl("b", <<nT("\n"), nEl("i", <<>>), nT("\n")>>), nT("\n")>>
                 ELSE <<nPy("q", eI(1)), nT("\n")>>
    [] i = 11 -> IF x THEN <<[nEl("b", <<nT("x\n")>>) EXCEPT !.attrs = <<attrib("a", <<aText("1"), aExpr(eV("v"))>>), attrib("z", <<>>)>>]>>
                 ELSE <<nDir(dBlock("k"), <<nT("\nblock\n")>>), nT("\n")>>
    [] i = 12 -> IF x THEN <<nDir(dWith(<<bind("w", eI(1))>>), <<nT("\n"), nE(eV("w"))>>), nT("\n")>>
                 ELSE <<nDir(dSwitch(eI(1)), <<nDir(dCase(eI(1)), <<nT("\na\n")>>)>>), nT("\n")>>

(* where the failing expression is *)
Places == 15
E == eErr
Place(i, x) ==
  CASE i = 1 -> <<nE(E)>>
    [] i = 2 -> <<nDir(dIf(E), <<nT("\n")>>)>>
    [] i = 3 -> <<nDir(dFor(<<"k">>, E), <<nT("\n")>>)>>
    [] i = 4 -> <<nDir(dSwitch(E), <<nDir(dCase(eI(1)), <<>>)>>)>>
    [] i = 5 -> <<nDir(dSwitch(eI(1)), <<nDir(dCase(eI(2)), <<nT("\n")>>), nDir(dCase(E), <<>>)>>)>>
    [] i = 6 -> <<nPy("q", E)>>
    [] i = 7 -> <<nDir(dFor(<<"k">>, eV("two")), <<nT("\n"), nDir(dIf(eEq(eV("k"), eI(2))), <<nT("\n"), nE(E)>>)>>)>>
    [] i = 8 -> <<nDir(dIf(eV("f")), <<nT("\n")>>), nDir(dElse, <<nT("\n"), nE(E)>>)>>
    [] i = 9 -> <<nDir(dCall(eCall("taker", <<Caller>>), <<par("a")>>), <<nT("\n"), nE(E)>>)>>
    [] i = 10 -> IF x THEN <<[nEl("b", <<>>) EXCEPT !.attrs = <<attrib("a", <<aText("1"), aExpr(E)>>)>>]>> ELSE <<>>
    [] i = 11 -> IF x THEN <<[nEl("b", <<>>) EXCEPT !.pyattrs = E]>> ELSE <<>>
    [] i = 12 -> IF x THEN <<[nEl("b", <<>>) EXCEPT !.content = E]>> ELSE <<>>
    [] i = 13 -> IF x THEN <<nDirs(<<dReplace(E)>>, "b", <<>>)>> ELSE <<>>
    [] i = 14 -> IF x THEN <<nDir(dWith(<<bind("w", E)>>), <<nT("\n")>>)>> ELSE <<>>
    [] i = 15 -> IF x THEN <<nCdata(<<nT("\n"), nE(E)>>)>> ELSE <<>>

(* the function it belongs to *)
Homes == 7
MyDims == <<Befores, Places, Homes, 2>>

Taker == nDir(dDef("taker", <<par("body")>>), <<nT("\n("), nE(eCall("body", <<eI(1)>>)), nT(")")>>)
Page(x, name, kids) == IF x THEN Tpl(name, <<nEl("p", kids)>>) ELSE TextTpl(name, kids)

MyBuild(c) ==
  LET x == c[4] = 1
      body == Before(c[1], x) \o Place(c[2], x)
      ext == IF x THEN ".html" ELSE ".txt"
      main == "t" \o ext
      lib == "lib" \o ext
      tail == <<nT("\nafter\n")>>
      indef == c[3] \in {2, 3}
      \* a block cannot be put into a function
      skip == \/ Place(c[2], x) = <<>>
              \/ c[1] = 11 /\ ~x /\ c[3] # 1 /\ c[3] # 6
              \/ c[1] = 9 /\ c[3] = 4
      tpls ==
        CASE c[3] = 1 -> <<Page(x, main, body \o tail \o <<Taker>>)>>
          [] c[3] = 2 -> <<Page(x, main, <<nT("\n"), nDir(dDef("h", <<>>), body \o tail), nT("\n"), nE(eCall("h", <<>>)), Taker>>)>>
          [] c[3] = 3 -> <<Page(x, main, <<nDir(dDef("h", <<par("a")>>), <<nT("\n"), nDir(dDef("inn", <<>>), body \o tail), nT("\n"), nE(eCall("inn", <<>>))>>),
                                          nT("\n"), nE(eCall("h", <<eI(1)>>)), Taker>>)>>
          [] c[3] = 4 -> <<Page(x, main, <<nT("\n"), nDir(dBlock("bl"), <<nT("\n")>> \o body \o tail), Taker>>)>>
          [] c[3] = 5 -> <<(IF x THEN Tpl(main, <<nDir(dExtends("base.html"), <<nT("\n"), nDir(dBlock("bl"), body \o tail), Taker>>)>>)
                            ELSE TextTpl(main, <<nDir(dExtends("base.txt"), <<nDir(dBlock("bl"), body \o tail), Taker>>)>>)),
                           Page(x, "base" \o ext, <<nT("\n\nbase\n"), nDir(dBlock("bl"), <<nT("z")>>), nT("\n")>>)>>
          [] c[3] = 6 -> <<Page(x, main, <<nT("\n"), nInclude(lib, "lib"), nT("\n")>>),
                           Page(x, lib, body \o tail \o <<Taker>>)>>
          [] c[3] = 7 -> <<Page(x, main, <<nT("\n"), nImport(lib, "lib", FALSE), nT("\n"), nE(eMCall("lib", "h", <<>>))>>),
                           Page(x, lib, <<nT("\n"), nDir(dDef("h", <<>>), body \o tail), Taker>>)>>
  IN  IF skip THEN NoJob
      ELSE JobOf(tpls, <<nv("t", BoolV(TRUE)), nv("f", BoolV(FALSE)), nv("v", StrV("x")),
                         nv("two", ListV(<<IntV(1), IntV(2)>>))>>, "id")
=============================================================================
