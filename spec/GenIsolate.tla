---------------------------- MODULE GenIsolate -----------------------------
(* C12: templates that use every kind of run time state, each with several  *)
(* contexts (one of which makes it fail half way).                          *)
EXTENDS GenBase

Boom == nDir(dIf(eEq(eV("x"), eI(3))), <<nT("!"), nE(eErr)>>)
X == nE(eV("x"))

Body(i) ==
  CASE i = 1 -> <<nT("a"), nDir(dWith(<<bind("w", eV("x"))>>),
                    <<nE(eV("w")), nDir(dWith(<<bind("w", eAdd(eV("w"), eI(10))), bind("v", eV("w"))>>),
                        <<nE(eV("v")), nEl("i", <<nE(eV("w"))>>), Boom>>), nE(eV("w"))>>), nT("z"), X>>
    [] i = 2 -> <<nDir(dFor(<<"k">>, eV("l")),
                    <<nDir(dSwitch(eV("x")),
                       <<nDir(dCase(eI(1)), <<nT("one"), nDir(dSwitch(eV("k")), <<nDir(dCase(eI(1)), <<nE(eV("k"))>>), nDir(dElse, <<nT("e")>>)>>), X>>),
                         nDir(dCase(eI(3)), <<nT("3"), nE(eErr)>>),
                         nDir(dElse, <<nT("other"), X>>)>>), nE(eV("k"))>>), X>>
    [] i = 3 -> <<nDir(dDef("f", <<par("a"), parD("b", StrV("d"))>>), <<nE(eV("a")), nE(eV("b")), X,
                     nDir(dDef("g", <<>>), <<nE(eV("a")), Boom>>), nE(eCall("g", <<>>))>>),
                  nE(eCall("f", <<eV("x")>>)), nT("-"), nE(eCall("f", <<eI(7), eV("x")>>))>>
    [] i = 4 -> <<nDir(dDef("t", <<par("cb")>>), <<nT("("), nE(eCall("cb", <<eI(1)>>)), nE(eCall("cb", <<eV("x")>>)), nT(")")>>),
                  nDir(dCall(eCall("t", <<Caller>>), <<par("q")>>), <<nE(eV("q")), nT("/"), X, Boom>>), X>>
    [] i = 5 -> <<nE(eV("m")), nT("a"), nE(eV("m")), [nEl("b", <<nE(eV("m"))>>) EXCEPT !.attrs = <<attrib("a", <<aText("1"), aExpr(eV("x"))>>)>>], Boom, nE(eV("m"))>>
    [] i = 6 -> <<X, nInclude("lib.html", "lib"), nT("m"), Boom, nInclude("lib.html", "lib"), X>>
    [] i = 7 -> <<nImport("lib.html", "lib", FALSE), nT("m"), nE(eMCall("lib", "h", <<eV("x")>>)), Boom,
                  nDir(dDef("h", <<par("a")>>), <<nT("mine")>>), nE(eCall("h", <<eI(1)>>)), nE(eMCall("lib", "h", <<eI(2)>>))>>
    [] i = 8 -> <<nT("page"), nPy("s", eV("x")), nDir(dFor(<<"k">>, eV("l")), <<nPy("s", eAdd(eV("s"), eV("k"))), nE(eV("s"))>>), Boom, nE(eV("s"))>>
    [] i = 9 -> <<nModPy("g", eI(5)), nE(eV("g")), nE(eDef("h")), nPy("h", eAdd(eV("g"), eV("x"))), nE(eV("h")), Boom, nE(eDef("h"))>>
    [] i = 10 -> <<[nEl("b", <<nT("text")>>) EXCEPT !.pyattrs = eD(<<"a", "checked", "id">>, <<eV("x"), eB(TRUE), eN>>, 0)],
                   [nEl("i", <<>>) EXCEPT !.content = eV("m")], Boom, nT("translated")>>
(* an extending template *)
Derived == <<nDir(dBlock("b"), <<nT("mine"), nE(eCall("parent_block", <<>>)), X, Boom, nE(eCall("f", <<>>))>>),
             nDir(dDef("f", <<>>), <<nT("f"), X>>)>>
Base == <<nT("base"), nDir(dBlock("b"), <<nT("theirs"), X>>), nE(eCall("f", <<>>)), nDir(dBlock("c"), <<nT("c")>>), nDir(dDef("f", <<>>), <<nT("?")>>)>>

Tpls == 15
MyDims == <<Tpls, 4>>
MyBuild(c) ==
  LET i == c[1]
      ctx(x, l, m) == <<nv("x", x), nv("l", l), nv("m", m)>>
      L12 == ListV(<<IntV(1), IntV(2)>>)
      ctxs == CASE c[2] = 1 -> ctx(IntV(1), L12, LitV("<m/>"))
                [] c[2] = 2 -> ctx(IntV(2), ListV(<<IntV(4)>>), StrV("<s>"))
                [] c[2] = 3 -> ctx(IntV(3), L12, LitV("<m/>"))
                [] c[2] = 4 -> ctx(IntV(1), L12, LitV("<m/>")) \o <<nv("unused", IntV(1))>>
      lib == [Tpl("lib.html", <<nEl("u", <<nPy("x2", eAdd(eV("x"), eI(1))), nE(eV("x2")), nDir(dDef("h", <<par("a")>>), <<nE(eV("a")), X>>), nE(eCall("h", <<eI(0)>>))>>)>>)
              EXCEPT !.frag = TRUE]
      page == [Tpl("page.html", <<nEl("p", Body(i))>>) EXCEPT
                 !.globals = IF i = 9 THEN <<nv("g", IntV(5))>> ELSE <<>>]
      tpls == CASE i <= 10 -> <<page, lib>>
                [] i = 11 -> <<Tpl("page.html", <<nDir(dExtends("base.html"), Derived)>>), Tpl("base.html", <<nEl("p", Base)>>)>>
                [] i = 12 -> <<TextTpl("page.txt", Body(2))>>
                [] i = 13 -> <<TextTpl("page.txt", Body(4))>>
                [] i = 14 -> <<TextTpl("page.txt", <<nDir(dExtends("base.txt"), Derived)>>), TextTpl("base.txt", Base)>>
                [] i = 15 -> <<TextTpl("page.txt", <<nT("m"), nInclude("lib.html", "lib"), Boom, X>>), lib>>
  IN  JobOf(tpls, ctxs, IF c[2] = 4 THEN "brk" ELSE "id")
=============================================================================
