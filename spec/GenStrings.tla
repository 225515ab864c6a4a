----------------------------- MODULE GenStrings -----------------------------
(* C01: every short string over the characters that matter to markup, as a  *)
(* value in text, in CDATA and in attributes.                               *)
EXTENDS GenBase

Alpha == <<"", "<", ">", "&", "\"", "'", ";", "a", "#", "]">>
K == Len(Alpha)
MyDims == IF Deep THEN <<K, K, K, K>> ELSE <<K, K, K, 1>>
MyBuild(c) ==
  LET s == Alpha[c[4]] \o Alpha[c[3]] \o Alpha[c[2]] \o Alpha[c[1]]
  IN  JobOf(<<Tpl("t.html",
        <<[nEl("p", <<nE(eV("x")), nT("|"), nCdata(<<nE(eV("x"))>>),
                     [nEl("b", <<>>) EXCEPT !.pyattrs = eD(<<"a">>, <<eV("x")>>, 0)]>>)
           EXCEPT !.attrs = <<attrib("title", <<aExpr(eV("x"))>>), attrib("id", <<aText("-"), aExpr(eV("x"))>>)>>]>>)>>,
        <<nv("x", StrV(s))>>, "id")
=============================================================================
