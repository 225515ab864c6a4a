------------------------------ MODULE GenText ------------------------------
(* C13: every string of up to three characters as static text, in every     *)
(* kind of place.                                                           *)
EXTENDS GenBase

Alphabet == <<"", "a", " ", "\n", "<", "&", ">", "\"", "'", "$", "{">>
Places == 10

(* the characters as nodes: a dollar sign is written $$ *)
RECURSIVE Nodes(_, _)
Nodes(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF Alphabet[cs[i]] = "" THEN Nodes(cs, i + 1)
  ELSE IF Alphabet[cs[i]] = "$" THEN <<nDollar>> \o Nodes(cs, i + 1)
  ELSE LET rest == Nodes(cs, i + 1)
       IN  IF rest # <<>> /\ Head(rest).op = "text"
           THEN <<nT(Alphabet[cs[i]] \o Head(rest).s)>> \o Tail(rest)
           ELSE <<nT(Alphabet[cs[i]])>> \o rest
Plain(cs) == Alphabet[cs[1]] \o Alphabet[cs[2]] \o Alphabet[cs[3]]

Place(p, cs) ==
  LET ns == Nodes(cs, 1) IN
  CASE p = 1 -> <<nEl("p", ns)>>
    [] p = 2 -> <<nDir(dIf(eB(TRUE)), ns), nEl("b", <<>>)>>
    [] p = 3 -> <<nEl("b", <<>>)>> \o ns \o <<nEl("b", <<>>)>>
    [] p = 4 -> <<nEl("script", ns)>>
    [] p = 5 -> <<nEl("style", ns)>>
    [] p = 6 -> <<nCdata(ns)>>
    [] p = 7 -> <<nComment(Plain(cs))>>
    [] p = 8 -> <<[nEl("b", <<>>) EXCEPT !.attrs = <<attrib("a", IF Plain(cs) = "" THEN <<>> ELSE <<aText(Plain(cs))>>)>>]>>
    [] p = 9 -> <<nDir(dDef("f", <<>>), ns), nE(eCall("f", <<>>))>>
    [] p = 10 -> <<nE(eV("v"))>> \o ns \o <<nE(eV("v"))>>

n == Len(Alphabet)
MyDims == <<n, n, n, Places, 2, 2>>
MyBuild(c) ==
  LET cs == <<c[1], c[2], c[3]>>
      \* an empty character only at the end
      gap == \/ Alphabet[c[1]] = "" /\ (Alphabet[c[2]] # "" \/ Alphabet[c[3]] # "")
             \/ Alphabet[c[2]] = "" /\ Alphabet[c[3]] # ""
      three == Alphabet[c[3]] # ""
      skip == \/ gap
              \/ ~Deep /\ three /\ (c[4] + c[1] + c[2] + c[3]) % 5 # 2 * (c[5] - 1) + (c[6] - 1)
              \/ c[4] = 7 /\ \E i \in 1..3 : Alphabet[cs[i]] = "$"
  IN  IF skip THEN NoJob
      ELSE JobOf(<<[Tpl("t.html", <<nEl("root", Place(c[4], cs))>>)
                    EXCEPT !.strip = c[5] = 2, !.mode = IF c[6] = 2 THEN "html5" ELSE "xml", !.cdata = ~(c[5] = 2 /\ c[6] = 1)]>>,
                 <<nv("v", StrV("V"))>>, IF c[6] = 2 THEN "brk" ELSE "id")
=============================================================================
