------------------------------ MODULE GenCombo ------------------------------
(* C20: every combination of directives on one element.  Each directive may *)
(* use what the others bind, so that their order shows in the output.       *)
EXTENDS GenBase

(* 1: absent; otherwise the forms of the directive *)
Fors == << <<>>, <<dFor(<<"k">>, eV("two"))>>, <<dFor(<<"k">>, eV("none"))>> >>
Ifs  == << <<>>, <<dIf(eLt(eV("k"), eI(2)))>>, <<dIf(eV("w"))>>, <<dIf(eB(FALSE))>> >>
Withs == << <<>>, <<dWith(<<bind("w", eAdd(eV("k"), eI(10)))>>)>>, <<dWith(<<bind("k", eI(1)), bind("v", eAdd(eV("k"), eI(5)))>>)>> >>
Repls == << <<>>, <<dReplace(eV("w"))>>, <<dReplace(eS("<r>"))>> >>
Blocks == << <<>>, <<dBlock("b")>> >>
(* around: nothing, a definition, a case, an else, a call, a definition with a call, a switch *)
Outers == 8
Strips == <<No, eB(TRUE), eEq(eV("k"), eI(1))>>
Contents == <<No, eV("k"), eV("w")>>
Tags == <<"p", "">>

Elem(c) ==
  LET ds == Fors[c[1]] \o Ifs[c[2]] \o Withs[c[3]] \o Repls[c[4]] \o Blocks[c[5]]
      tag == Tags[c[8]]
      kids == IF Contents[c[7]].o # "no" THEN <<>> ELSE <<nT("["), nE(eV("k")), nT("]")>>
  IN  [nEl(tag, kids) EXCEPT !.dirs = ds, !.strip = Strips[c[9]], !.content = Contents[c[7]],
         !.attrs = IF tag = "" THEN <<>> ELSE <<attrib("a", <<aExpr(eV("k"))>>)>>]
Around(i, e) ==
  LET add(d) == [e EXCEPT !.dirs = <<d>> \o @]
  IN  CASE i = 1 -> <<e>>
        [] i = 2 -> <<nE(eCall("f", <<eI(4)>>)), add(dDef("f", <<par("k")>>)), nE(eCall("f", <<eI(1)>>))>>
        [] i = 3 -> <<nDir(dSwitch(eI(1)), <<add(dCase(eI(1))), nDir(dElse, <<nT("no")>>)>>)>>
        [] i = 4 -> <<nDir(dSwitch(eI(2)), <<add(dCase(eI(1))), nT(" "), nDir(dElse, <<nT("else")>>)>>)>>
        [] i = 5 -> <<nDir(dIf(eB(FALSE)), <<nT("no")>>), add(dElse)>>
        [] i = 6 -> <<nDir(dDef("h", <<par("cb")>>), <<nT("{"), nE(eCall("cb", <<eI(1)>>)), nE(eCall("cb", <<eI(3)>>)), nT("}")>>),
                      add(dCall(eCall("h", <<Caller>>), <<par("k")>>))>>
        [] i = 7 -> <<nDir(dDef("h", <<par("cb")>>), <<nT("{"), nE(eCall("cb", <<>>)), nE(eCall("cb", <<>>)), nT("}")>>),
                      [e EXCEPT !.dirs = <<dDef("f", <<par("k")>>), dCall(eCall("h", <<Caller>>), <<>>)>> \o @],
                      nE(eCall("f", <<eI(1)>>)), nE(eCall("f", <<eI(7)>>))>>
        [] i = 8 -> <<[nEl("", <<nDir(dCase(eI(1)), <<nT("one")>>), nDir(dElse, <<nT("other"), nE(eV("k"))>>)>>)
                        EXCEPT !.dirs = e.dirs \o <<dSwitch(eV("k"))>>]>>

MyDims == <<Len(Fors), Len(Ifs), Len(Withs), Len(Repls), Len(Blocks), Outers, Len(Contents), 2, Len(Strips), 2>>
MyBuild(c) ==
  LET count == (IF c[1] > 1 THEN 1 ELSE 0) + (IF c[2] > 1 THEN 1 ELSE 0) + (IF c[3] > 1 THEN 1 ELSE 0)
               + (IF c[4] > 1 THEN 1 ELSE 0) + (IF c[5] > 1 THEN 1 ELSE 0) + (IF c[6] > 1 THEN 1 ELSE 0)
               + (IF c[7] > 1 THEN 1 ELSE 0) + (IF c[9] > 1 THEN 1 ELSE 0)
      skip == \/ c[8] = 2 /\ (c[7] > 1 \/ c[9] > 1)
              \/ c[5] = 2 /\ c[6] \in {2, 6, 7, 8}      \* blocks inside functions
              \/ c[10] = 2 /\ (c[5] = 1 \/ c[7] > 1 \/ c[9] > 1)
              \* what a switch may be combined with, from outside
              \/ c[6] = 8 /\ (c[3] > 1 \/ c[4] > 1 \/ c[7] > 1 \/ c[9] > 1 \/ c[8] = 1)
              \/ c[2] > 1 /\ c[6] = 5              \* the else of another if
              \* unspecified: a name of the function that py:with binds, before it
              \/ c[3] > 1 /\ c[1] = 1 /\ c[6] \notin {2, 6}
              \/ ~Deep /\ count > 4
              \/ ~Deep /\ count > 3 /\ (SumSeq(c) % 3 # 0)
  IN  IF skip THEN NoJob
      ELSE JobOf((IF c[10] = 1 THEN <<>> ELSE
                  \* a block can be overridden where it is
                  <<Tpl("child.html", <<[nEl("", <<nDir(dBlock("b"), <<nT("<o>"), nE(eV("g"))>>)>>) EXCEPT !.dirs = <<dExtends("t.html")>>]>>)>>)
                 \o <<Tpl("t.html", <<nEl("div", Around(c[6], Elem(c)))>>)>>,
                 <<nv("two", ListV(<<IntV(1), IntV(2)>>)), nv("none", ListV(<<>>)),
                   \* names the directives do not bind have these values
                   nv("g", StrV("G"))>>
                 \o (IF c[1] = 1 /\ c[6] \notin {2, 6, 7} THEN <<nv("k", IntV(0))>> ELSE <<>>), "id")
=============================================================================
