----------------------------- MODULE GenModule -----------------------------
(* C09: a page that includes or imports a library, which may extend a base  *)
(* and include another template; the same function and context names are    *)
(* defined on both sides or not.                                            *)
EXTENDS GenBase

(* how the page refers to the library *)
Links == 7
Link(i, lib) ==
  CASE i = 1 -> <<nInclude(lib, "lib")>>
    [] i = 2 -> <<nImport(lib, "lib", FALSE)>>
    [] i = 3 -> <<nImport(lib, "al", TRUE)>>
    [] i = 4 -> <<nDir(dFor(<<"k">>, eV("two")), <<nInclude(lib, "lib")>>)>>
    [] i = 5 -> <<nDir(dIf(eB(TRUE)), <<nImport(lib, "lib", FALSE)>>)>>
    [] i = 6 -> <<nInclude(lib, "lib"), nInclude(lib, "lib")>>
    [] i = 7 -> <<nDir(dDef("w", <<>>), <<nInclude(lib, "lib"), nT("w")>>), nE(eCall("w", <<>>)), nE(eCall("w", <<>>))>>
Alias(i) == IF i = 3 THEN "al" ELSE "lib"

(* what the library does with f *)
Uses == 5
Use(i) == CASE i = 1 -> <<>>
            [] i = 2 -> <<nE(eCall("f", <<>>))>>
            [] i = 3 -> <<nE(eMCall("self", "f", <<>>))>>
            [] i = 4 -> <<nE(eMCall("local", "f", <<>>))>>
            [] i = 5 -> <<nE(eCall("h", <<>>))>>
(* what the page does *)
Calls == 6
PageCall(i, al) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> <<nE(eCall("f", <<>>))>>
    [] i = 3 -> <<nE(eMCall(al, "f", <<>>))>>
    [] i = 4 -> <<nE(eMCall(al, "h", <<>>)), nE(eMCall(al, "f", <<>>))>>
    [] i = 5 -> <<nDir(dCall(eMCall(al, "t", <<Caller>>), <<par("q")>>), <<nE(eV("q")), nE(eV("x"))>>)>>
    [] i = 6 -> <<nE(eMCall("self", "f", <<>>)), nE(eMCall("local", "f", <<>>))>>

DefF(tag, on) == IF on THEN <<nDir(dDef("f", <<>>), <<nT("f@" \o tag), nE(eV("x"))>>)>> ELSE <<>>

(* kinds of library: XML, text, XML that extends a base *)
LibKinds == 3
MyDims == <<Links, Uses, Calls, 2, 2, LibKinds, 2>>
MyBuild(c) ==
  LET pf == c[4] = 2
      lf == c[5] = 2
      xmlpage == c[7] = 1
      lib == CASE c[6] = 2 -> "lib.txt" [] OTHER -> "lib.html"
      al == Alias(c[1])
      libdefs == DefF("lib", lf)
                 \o <<nDir(dDef("h", <<>>), <<nT("h("), nE(eV("x")), nT(")")>> \o (IF lf THEN <<nE(eCall("f", <<>>))>> ELSE <<>>)),
                      nDir(dDef("t", <<par("cb")>>), <<nT("t"), nE(eCall("cb", <<eI(1)>>))>>)>>
      libbody == <<nT("L:"), nE(eV("x"))>> \o Use(c[2])
      page == Link(c[1], lib) \o <<nT("/")>> \o PageCall(c[3], al) \o DefF("page", pf)
      \* a library that extends gets what it does not define from its base
      libs == CASE c[6] = 1 -> <<[Tpl(lib, <<nEl("i", libbody \o libdefs)>>) EXCEPT !.frag = TRUE, !.mode = "html5"]>>
                [] c[6] = 2 -> <<TextTpl(lib, libdefs \o libbody)>>
                [] c[6] = 3 -> <<[Tpl(lib, <<nDir(dExtends("base.html"), libdefs \o <<nDir(dBlock("b"), libbody)>>)>>)
                                  EXCEPT !.frag = TRUE],
                                 Tpl("base.html", <<nEl("u", <<nT("base"), nDir(dBlock("b"), <<>>)>>)>>)>>
      \* unspecified: functions an extending library gets from its page
      skip == \/ c[6] = 3 /\ c[2] \in {2, 3, 4} /\ ~lf
              \/ c[2] \in {3, 4} /\ ~lf
              \/ c[3] \in {3, 4} /\ ~lf
              \/ c[3] = 6 /\ ~pf
              \/ c[6] = 3 /\ c[1] \in {2, 3, 5} /\ c[3] # 1
              \* the name is bound when the include or import has run
              \/ c[1] = 7 /\ FALSE
  IN  IF skip THEN NoJob
      ELSE JobOf((IF xmlpage THEN <<Tpl("page.html", <<nEl("p", page)>>)>> ELSE <<TextTpl("page.txt", page)>>) \o libs,
                 <<nv("x", StrV("<x>")), nv("two", ListV(<<IntV(1), IntV(2)>>))>>, "id")
=============================================================================
