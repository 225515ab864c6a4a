------------------------------ MODULE GenAuto ------------------------------
(* C08: blocks made from elements by name (autoblocks), and templates that  *)
(* extend another from inside their root element.                           *)
EXTENDS GenBase

PB == nE(eCall("parent_block", <<>>))
(* the base: where its block "body" comes from *)
Bases == 6
Base(i) ==
  CASE i = 1 -> <<nEl("body", <<nT("B")>>)>>
    [] i = 2 -> <<nEl("body", <<nDir(dBlock("body"), <<nT("B"), nE(eV("x"))>>)>>)>>
    [] i = 3 -> <<nT("<"), nDirs(<<dBlock("body")>>, "p", <<nT("B")>>), nT(">")>>
    [] i = 4 -> <<nDirs(<<dIf(eB(TRUE))>>, "body", <<nT("B"), nEl("br", <<>>)>>)>>
    [] i = 5 -> <<[nEl("body", <<nDir(dBlock("body"), <<nT("B")>>)>>) EXCEPT !.noauto = TRUE]>>
    [] i = 6 -> <<nEl("head", <<nT("H")>>), nEl("body", <<>>)>>
Kids == 6
Child(i) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> <<nEl("body", <<nT("C"), nE(eV("x"))>>)>>
    [] i = 3 -> <<nEl("body", <<nT("C"), PB>>)>>
    [] i = 4 -> <<nDir(dBlock("body"), <<nT("C"), PB>>)>>
    [] i = 5 -> <<[nEl("body", <<nT("C")>>) EXCEPT !.noauto = TRUE]>>
    [] i = 6 -> <<nT(" "), nEl("head", <<nT("D")>>), nT(" "), nEl("body", <<nT("C")>>)>>
Auto(i) == CASE i = 1 -> <<>> [] i = 2 -> <<"body">> [] i = 3 -> <<"head", "body">>
(* the child: alone (base only), root extends, extends inside the root *)
MyDims == <<Bases, Kids, 3, 3, 3>>
MyBuild(c) ==
  LET base == [Tpl("base.html", <<nEl("html", Base(c[1]))>>) EXCEPT !.auto = Auto(c[3])]
      ext == nDir(dExtends("base.html"), <<>>)
      child == CASE c[5] = 1 -> <<>>
                 [] c[5] = 2 -> <<[Tpl("t.html", <<nDir(dExtends("base.html"), Child(c[2]))>>) EXCEPT !.auto = Auto(c[4])]>>
                 [] c[5] = 3 -> <<[Tpl("t.html", <<nEl("x", <<ext>> \o Child(c[2]))>>) EXCEPT !.auto = Auto(c[4]), !.ext = TRUE]>>
      autobase == c[3] > 1
      autochild == c[4] > 1
      \* two blocks of one name; py:autoblock where it means nothing
      skip == \/ c[5] = 1 /\ (c[2] > 1 \/ c[4] > 1)
              \/ autobase /\ c[1] = 2
              \/ ~autobase /\ c[1] = 5
              \/ ~autochild /\ c[2] = 5
              \* a parent block that does not exist
              \/ c[2] = 3 /\ (~autochild \/ ~(autobase \/ c[1] \in {2, 3}))
              \/ c[2] = 4 /\ ~(autobase \/ c[1] \in {2, 3})
              \/ c[5] # 1 /\ autochild /\ c[2] \in {2, 6} /\ ~autobase /\ c[1] \in {1, 4, 6}
              \/ c[5] # 1 /\ c[2] = 6 /\ (c[4] = 3 => ~(c[1] = 6 /\ c[3] = 3))
  IN  IF skip THEN NoJob ELSE JobOf(child \o <<base>>, <<nv("x", StrV("&x"))>>, "id")
=============================================================================
