----------------------------- MODULE GenLoader -----------------------------
(* C19: how a FileLoader compiles a template: the extension, the options of *)
(* the loader and those of the load decide what kind of template it is, its *)
(* output mode, escaping, autoblocks, white space, and the encoding of the  *)
(* file; templates that are included, imported or extended are compiled by  *)
(* the same loader.                                                         *)
EXTENDS GenBase

Exts == <<"xml", "html", "html5", "txt">>
Forces == <<"", "text", "xml", "html", "html5">>
Encs == <<"", "latin-1", "utf-16">>
Strips == <<"", "t", "f">>

(* The rules *)
LKind(ext, o) == IF o.force = "text" \/ (o.force = "" /\ ext = "txt") THEN "text" ELSE "xml"
LMode(ext, o) == IF LKind(ext, o) = "text" THEN ""
                ELSE IF o.force # "" THEN o.force
                ELSE IF ext = "xml" THEN "" ELSE ext
Stripped(o, l) == IF l.strip # "" THEN l.strip = "t" ELSE o.strip = "t"
LEnc(o, l) == IF l.enc # "" THEN l.enc ELSE IF o.enc # "" THEN o.enc ELSE "utf-8"
Plain == [frag |-> FALSE, strip |-> "", enc |-> ""]
Fragment == [Plain EXCEPT !.frag = TRUE]
Compiled(name, ext, root, o, l) ==
  LET k == LKind(ext, o)
  IN  [Tpl(name, root) EXCEPT !.kind = k, !.mode = LMode(ext, o), !.frag = k = "xml" /\ l.frag,
                              !.strip = k = "xml" /\ Stripped(o, l), !.cdata = ~(k = "xml") \/ o.cdata,
                              !.esc = k = "text" /\ o.esc, !.auto = IF k = "xml" THEN o.auto ELSE <<>>]

(* what a template has in it *)
Fun == nDir(dDef("f", <<>>), <<nT("f"), nE(eV("x"))>>)
LBody(k, id, auto) ==
  IF k = "text"
  THEN <<nT(id \o " é "), nE(eV("x")), nT("\n"), nDir(dBlock("em"), <<nT("e")>>), nT(" \n"), Fun>>
  ELSE <<nEl("div", <<nT(" " \o id \o " é "), nEl("br", <<>>), nE(eV("x")), nT(" "),
                      IF auto THEN nEl("em", <<nT("e")>>) ELSE nDirs(<<dBlock("em")>>, "em", <<nT("e")>>),
                      nEl("p", <<>>), nT(" "), nEl("script", <<nT("a<b")>>), Fun>>)>>
Wrap(k, kids) == IF k = "text" THEN kids ELSE <<nEl("ul", kids)>>

(* role of the second template: none, included, imported, extended *)
MyDims == <<4, 5, 2, 2, IF Deep THEN 3 ELSE 2, 2, 3, 4, 2, 3, IF Deep THEN 2 ELSE 1>>
MyBuild(c) ==
  LET ext == Exts[c[1]]
      o == [force |-> Forces[c[2]], esc |-> c[3] = 2, auto |-> IF c[4] = 2 THEN <<"em">> ELSE <<>>,
            strip |-> Strips[c[5]], cdata |-> c[6] = 1, enc |-> Encs[c[7]]]
      l == [frag |-> c[9] = 2, strip |-> Strips[c[10]], enc |-> IF c[11] = 2 THEN "latin-1" ELSE ""]
      k == LKind(ext, o)
      auto == o.auto # <<>>
      name == "t." \o ext
      other == "o." \o ext
      two == CASE c[8] = 1 -> LBody(k, "t", auto)
               [] c[8] = 2 -> Wrap(k, <<nT("t "), nInclude(other, "o"), nE(eV("x"))>>)
               [] c[8] = 3 -> Wrap(k, <<nImport(other, "o", FALSE), nT("t "), nE(eMCall("o", "f", <<>>))>>)
               [] c[8] = 4 -> <<nDir(dExtends(other), <<nDir(dBlock("em"), <<nT("c"), nE(eV("x"))>>)>>)>>
      second == CASE c[8] = 1 -> <<>>
                  [] c[8] \in {2, 3} -> <<Compiled(other, ext, LBody(k, "o", auto), o, Fragment)>>
                  [] c[8] = 4 -> <<Compiled(other, ext, LBody(k, "o", auto), o, Plain)>>
      \* options that only XML templates know
      skip == \/ k = "text" /\ (o.strip # "" \/ ~o.cdata \/ l.strip # "" \/ o.auto # <<>>)
              \/ k = "xml" /\ o.esc
              \/ c[8] = 3 /\ auto
              \/ ~Deep /\ (IF o.strip # "" THEN 1 ELSE 0) + (IF ~o.cdata THEN 1 ELSE 0) + (IF o.enc # "" THEN 1 ELSE 0)
                          + (IF auto THEN 1 ELSE 0) + (IF l.strip # "" THEN 1 ELSE 0) > 2
      j == JobOf(<<Compiled(name, ext, two, o, l)>> \o second, <<nv("x", StrV("<&>"))>>, "id")
  IN  IF skip THEN NoJob
      ELSE j @@ [loader |-> o, load |-> l,
                 encs |-> <<LEnc(o, l)>> \o [i \in DOMAIN second |-> LEnc(o, Plain)]]
=============================================================================
