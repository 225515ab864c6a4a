----------------------------- MODULE GenPyAttrs -----------------------------
(* C02: py:attrs, alone and together with attributes written out.           *)
EXTENDS GenBase

Vals == <<eN, eS("v"), eS(""), eS("a<b & \"c\""), eI(0), eI(1), eI(2), eB(TRUE), eB(FALSE),
          eV("none"), eV("obj"), eV("html"), eV("falsy"), eLit(eS("&lt;ok"))>>
K == Len(Vals)
Names == <<"class", "checked", "selected">>
Modes == <<"xml", "html", "html5">>
Forms == 4
(* 1: a dict, 2: a list of pairs, 3: None, 4: the names in reverse order *)
PA(c) == LET n1 == Names[c[3]]
             a == Vals[c[1]]
             b == Vals[c[2]]
         IN  CASE c[4] = 1 -> eD(<<n1, "id">>, <<a, b>>, 0)
               [] c[4] = 2 -> eD(<<n1, "id">>, <<a, b>>, 1)
               [] c[4] = 3 -> eN
               [] c[4] = 4 -> eD(<<"id", n1>>, <<b, a>>, 1)
Tags == <<"p", "input">>
MyDims == <<K, IF Deep THEN K ELSE 4, 3, Forms, 3, 2>>
MyBuild(c) ==
  JobOf(<<[Tpl("t.html",
     <<nEl("div", <<[nEl(Tags[c[6]], <<>>)
                     EXCEPT !.attrs = <<attrib("title", <<aText("t")>>), attrib("b", <<aExpr(eV("none"))>>)>>,
                            !.pyattrs = PA(c)]>>)>>)
     EXCEPT !.mode = Modes[c[5]]]>>,
   <<nv("none", NONE), nv("obj", ObjV("<o>")), nv("falsy", FalsyV(ObjV("<f>"), "empty")), nv("html", HtmlV("&copy;", "<"))>>, "id")
=============================================================================
