----------------------------- MODULE GenEscape -----------------------------
(* C01: every kind of value, at every place where a value can be written.   *)
EXTENDS GenBase

Strs == <<"", "a", "<", ">", "&", "\"", "'", "a<b", "&lt;", "&amp;", "]]>", "<![CDATA[",
          "<script>alert(\"1\")</script>", "a & b", "é<", "$x", "${x}", " < ", "\n>", "<!-- -->",
          "<<>>", "&&amp;&", "\"'\"">>
Others == <<NONE, IntV(0), IntV(-12), BoolV(TRUE), BoolV(FALSE), HtmlV("<i>&amp;</i>", "<s>"),
            HtmlV("", "<"), ObjV("<o>&"), ObjV(""), LitV("<b>&</b>"), LitV(""),
            ListV(<<IntV(1), IntV(2)>>), FalsyV(ObjV("<f>"), "false"), FalsyV(ObjV("&"), "empty"), FalsyV(ObjV("1.5"), "float"),
            FalsyV(HtmlV("<i>", "<s>"), "false"), FalsyV(HtmlV("<u>", "<s>"), "empty"), HtmlV(" <i>\n", ""), ObjV(" < ")>>
Values == [i \in 1..(Len(Strs) + Len(Others)) |->
             IF i <= Len(Strs) THEN StrV(Strs[i]) ELSE Others[i - Len(Strs)]]

X == eV("x")
P(kids) == <<nEl("p", kids)>>
Places == 16
Place(i) ==
  CASE i = 1 -> <<Tpl("t.html", P(<<nE(X)>>))>>
    [] i = 2 -> <<Tpl("t.html", P(<<nT("a "), nE(X), nT("\nb"), nE(X)>>))>>
    [] i = 3 -> <<Tpl("t.html", P(<<nCdata(<<nT("<"), nE(X), nT("&")>>)>>))>>
    [] i = 4 -> <<Tpl("t.html", P(<<nDir(dReplace(X), <<>>)>>))>>
    [] i = 5 -> <<Tpl("t.html", P(<<[nEl("b", <<>>) EXCEPT !.content = X]>>))>>
    [] i = 6 -> <<Tpl("t.html", P(<<nDir(dDef("f", <<par("y")>>), <<nT("["), nE(eV("y")), nT("]")>>),
                                     nE(eCall("f", <<X>>))>>))>>
    [] i = 7 -> <<Tpl("t.html", P(<<nDir(dFor(<<"i">>, eL(<<X, X>>)), <<nE(eV("i"))>>)>>))>>
    [] i = 8 -> <<Tpl("t.html", P(<<nDir(dWith(<<bind("y", X)>>), <<nE(eV("y")), nE(X), nE(eV("y"))>>)>>))>>
    [] i = 9 -> <<Tpl("t.html", P(<<nDir(dBlock("k"), <<nE(X)>>)>>))>>
    [] i = 10 -> <<Tpl("t.html", P(<<nInclude("inc.html", "inc")>>)),
                   [Tpl("inc.html", P(<<nE(X)>>)) EXCEPT !.frag = TRUE]>>
    [] i = 11 -> <<[TextTpl("t.txt", <<nT("<a> & "), nE(X), nT("\n")>>) EXCEPT !.esc = TRUE]>>
    [] i = 12 -> <<TextTpl("t.txt", <<nT("<a> & "), nE(X), nT("\n")>>)>>
    [] i = 13 -> <<Tpl("t.html", P(<<nDir(dDef("f", <<par("c")>>), <<nE(eCall("c", <<X>>))>>),
                                      nDir(dCall(eCall("f", <<Caller>>), <<par("y")>>), <<nE(eV("y"))>>)>>))>>
    [] i = 14 -> <<[Tpl("t.html", P(<<nEl("script", <<nT("if (a < b && c)"), nE(X)>>)>>)) EXCEPT !.cdata = FALSE]>>
    [] i = 15 -> <<Tpl("t.html", P(<<nEl("script", <<nT("if (a < b && c) "), nE(X)>>)>>))>>
    [] i = 16 -> <<Tpl("t.html", P(<<nDir(dSwitch(eI(1)), <<nDir(dCase(eI(1)), <<nE(X)>>)>>)>>))>>

Modes == <<"xml", "html5">>
MyDims == <<Len(Values), Places, 2>>
MyBuild(c) ==
  LET ts == Place(c[2])
  IN  JobOf([i \in DOMAIN ts |-> IF ts[i].kind = "xml" THEN [ts[i] EXCEPT !.mode = Modes[c[3]]] ELSE ts[i]],
            <<nv("x", Values[c[1]])>>, "id")
=============================================================================
