------------------------------ MODULE GenFlow ------------------------------
(* C05: every nesting of three control structures, each with every outcome, *)
(* in XML and in text templates.                                            *)
EXTENDS GenBase

D == 16
Level == <<"1", "2", "3">>
Wrap(d, l, kids) ==
  LET v == "i" \o Level[l]
      alt == <<nT("e" \o Level[l])>>
      case(i, ks) == nDir(dCase(eI(i)), ks)
      other == nDir(dElse, alt)
  IN  CASE d = 1 -> kids
        [] d = 2 -> <<nDir(dIf(eV("t")), kids)>>
        [] d = 3 -> <<nDir(dIf(eV("f")), kids)>>
        [] d = 4 -> <<nDir(dIf(eV("t")), kids), nDir(dElse, alt)>>
        [] d = 5 -> <<nDir(dIf(eV("f")), alt), nDir(dElse, kids)>>
        [] d = 6 -> <<nDir(dFor(<<v>>, eL(<<>>)), kids)>>
        [] d = 7 -> <<nDir(dFor(<<v>>, eL(<<eI(1)>>)), kids \o <<nE(eV(v))>>)>>
        [] d = 8 -> <<nDir(dFor(<<v>>, eV("two")), <<nE(eV(v))>> \o kids)>>
        [] d = 9 -> <<nDir(dSwitch(eI(1)), <<case(1, kids), case(2, alt)>>)>>
        [] d = 10 -> <<nDir(dSwitch(eI(2)), <<case(1, alt), case(2, kids), case(2, alt), other>>)>>
        [] d = 11 -> <<nDir(dSwitch(eV("f")), <<case(1, alt), nDir(dElse, kids)>>)>>
        [] d = 12 -> <<nDir(dSwitch(eI(3)), <<case(1, kids), case(2, alt)>>)>>
        [] d = 13 -> <<nDir(dFor(<<v>>, eV("two")),
                            <<nDir(dIf(eEq(eV(v), eI(2))), kids), nDir(dElse, alt)>>)>>
        [] d = 14 -> <<nDir(dFor(<<v>>, eV("two")),
                            <<nDir(dSwitch(eV(v)), <<case(1, alt), nDir(dElse, kids)>>)>>)>>
        [] d = 15 -> <<nDir(dFor(<<v, v \o "b">>, eV("pairs")), <<nE(eV(v \o "b")), nE(eV(v))>> \o kids)>>
        [] d = 16 -> <<nDir(dIf(eV("t")), kids), nDir(dIf(eV("f")), alt), nDir(dElse, kids)>>

Tree(c) == <<nT("(")>> \o Wrap(c[1], 1, <<nT("[")>> \o Wrap(c[2], 2, <<nT("<")>> \o Wrap(c[3], 3, <<nT("*")>>) \o <<nT(">")>>)
                                        \o <<nT("]")>>) \o <<nT(")")>>
MyDims == <<D, D, D, 2>>
MyBuild(c) ==
  JobOf(IF c[4] = 1 THEN <<Tpl("t.html", <<nEl("p", Tree(c))>>)>> ELSE <<TextTpl("t.txt", Tree(c))>>,
        <<nv("t", BoolV(TRUE)), nv("f", IntV(0)), nv("two", ListV(<<IntV(1), IntV(2)>>)),
          nv("pairs", ListV(<<ListV(<<IntV(1), StrV("a")>>), ListV(<<IntV(2), StrV("b")>>)>>))>>, "id")
=============================================================================
