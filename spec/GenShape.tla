------------------------------ MODULE GenShape ------------------------------
(* C03, C04: elements of every kind, with every kind of content, in every   *)
(* mode: what is written around the content.                                *)
EXTENDS GenBase

Tags == <<"p", "area", "base", "br", "col", "hr", "img", "input", "link", "meta", "param",
          "div", "script", "style", "td", "option", "textarea", "body", "li", "a", "x:y", "BR", "frame">>
Kids(tag) ==
  LET raw == tag \in RawTags
  IN  << <<>>, <<nT("t")>>, <<nT(" ")>>, <<nT("\n a < b & c\n")>>, <<nE(eV("x"))>>, <<nE(eN)>>,
         IF raw THEN <<nT("x]]")>> ELSE <<nComment("c"), nT("u")>>,
         IF raw THEN <<nT("1"), nE(eI(2)), nT("3")>> ELSE <<nEl("b", <<>>), nT(" "), nEl("i", <<nT("i")>>)>>,
         IF raw THEN <<nCdata(<<nT("a<b")>>)>> ELSE <<nCdata(<<nT("a<b&")>>), nComment("!hidden")>>,
         IF raw THEN <<nCdata(<<nE(eV("x"))>>)>> ELSE <<nDir(dIf(eB(FALSE)), <<nT("no")>>)>> >>
Strips == <<No, eB(TRUE), eV("yes"), eV("no")>>
Contents == <<No, eV("x"), eN>>
Modes == <<"xml", "html", "html5">>
MyDims == <<Len(Tags), 10, 4, IF Deep THEN 3 ELSE 1, 3, IF Deep THEN 4 ELSE 2>>
MyBuild(c) ==
  LET tag == Tags[c[1]]
      skip == \/ (c[4] > 1 /\ (c[2] > 1 \/ tag \in VoidTags))
              \/ (tag \in RawTags /\ c[3] > 1)
      e == [nEl(tag, Kids(tag)[c[2]]) EXCEPT !.strip = Strips[c[3]], !.content = Contents[c[4]],
              !.attrs = IF c[6] = 1 THEN <<>> ELSE <<attrib("id", <<aText("i&")>>)>>]
  IN  IF skip THEN NoJob
      ELSE JobOf(<<[Tpl("t.html", <<nEl("html", <<e, nT("after")>>)>>)
                    EXCEPT !.mode = Modes[c[5]],
                           !.strip = c[6] = 3, !.cdata = c[6] # 4]>>,
                 <<nv("x", StrV("<x> & \"")), nv("yes", BoolV(TRUE)), nv("no", IntV(0))>>, "id")
=============================================================================
