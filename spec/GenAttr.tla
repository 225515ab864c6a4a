------------------------------ MODULE GenAttr ------------------------------
(* C02: attribute values built from up to three parts, in every mode.       *)
EXTENDS GenBase

Parts3 == <<
  <<>>, <<aText("s")>>, <<aText("<&\"'>")>>, <<aText(" ")>>, <<aText("$")>>,
  <<aExpr(eN)>>, <<aExpr(eV("none"))>>, <<aExpr(eV("str"))>>, <<aExpr(eS(""))>>, <<aExpr(eI(0))>>,
  <<aExpr(eB(FALSE))>>, <<aExpr(eB(TRUE))>>, <<aExpr(eV("obj"))>>, <<aExpr(eV("falsy"))>>, <<aExpr(eLit(eS("<l>&")))>>,
  <<aExpr(eCall("f", <<eV("str")>>))>> >>
K == Len(Parts3)
Names == <<"title", "xml:lang">>
Modes == <<"xml", "html", "html5">>
MyDims == IF Deep THEN <<K, K, K, 2, 3>> ELSE <<K, K, 6, 1, 2>>
MyBuild(c) ==
  JobOf(<<[Tpl("t.html",
     <<nEl("div", <<nDir(dDef("f", <<par("y")>>), <<nT("plain")>>),
                    [nEl("p", <<nT("k")>>)
                     EXCEPT !.attrs = <<attrib("z", <<aText("last")>>),
                                        attrib(Names[c[4]], Parts3[c[1]] \o Parts3[c[2]] \o Parts3[c[3]]),
                                        attrib("a", <<aText("first")>>)>>]>>)>>)
     EXCEPT !.mode = Modes[c[5]]]>>,
   <<nv("none", NONE), nv("str", StrV("a<b & \"c\"")), nv("obj", ObjV("<o>")), nv("falsy", FalsyV(ObjV("<f>"), "false"))>>, "id")
=============================================================================
