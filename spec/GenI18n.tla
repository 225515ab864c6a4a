------------------------------ MODULE GenI18n ------------------------------
(* C14: every run of up to four pieces of character data, in every kind of  *)
(* place, with a catalogue that brackets every message.                     *)
EXTENDS GenBase

Pieces == 8
Piece(i) == CASE i = 1 -> <<>>
              [] i = 2 -> <<nT("word")>>
              [] i = 3 -> <<nT("  lead & <trail>\n ")>>
              [] i = 4 -> <<nT(" \n")>>
              [] i = 5 -> <<nE(eV("v"))>>
              [] i = 6 -> <<nDollar>>
              [] i = 7 -> <<nEl("b", <<nT("b ")>>)>>
              [] i = 8 -> <<nE([o |-> "tr", s |-> "T:<m>"])>>
RECURSIVE Glue(_)
Glue(ns) == IF Len(ns) < 2 THEN ns
            ELSE IF ns[1].op = "text" /\ ns[2].op = "text"
            THEN Glue(<<nT(ns[1].s \o ns[2].s)>> \o SubSeq(ns, 3, Len(ns)))
            ELSE <<ns[1]>> \o Glue(Tail(ns))
Places == 7
Place(p, ns) ==
  CASE p = 1 -> ns
    [] p = 2 -> <<nDir(dIf(eB(TRUE)), ns), nDir(dElse, <<nT("never")>>)>>
    [] p = 3 -> <<nDir(dFor(<<"k">>, eL(<<eI(1), eI(2)>>)), ns)>>
    [] p = 4 -> <<nDir(dDef("f", <<>>), ns), nE(eCall("f", <<>>))>>
    [] p = 5 -> <<nDir(dBlock("k"), ns)>>
    [] p = 6 -> <<nCdata(ns)>>
    [] p = 7 -> <<[nEl("i", ns) EXCEPT !.strip = eB(TRUE)]>>

MyDims == <<Pieces, Pieces, Pieces, Pieces, Places, 2>>
MyBuild(c) ==
  LET ns == Glue(Piece(c[1]) \o Piece(c[2]) \o Piece(c[3]) \o Piece(c[4]))
      gap == \E i \in 1..3 : c[i] = 1 /\ c[i + 1] # 1
      skip == gap \/ (c[5] = 6 /\ \E i \in 1..4 : c[i] = 7)
              \/ (~Deep /\ c[4] # 1 /\ (c[1] + c[2] + c[3] + c[4] + c[5]) % 8 # 3 * c[6])
  IN  IF skip THEN NoJob
      ELSE JobOf(<<[Tpl("t.html", <<nEl("p", Place(c[5], ns))>>) EXCEPT !.strip = c[6] = 2]>>,
                 <<nv("v", StrV("<v>"))>>, "brk")
=============================================================================
