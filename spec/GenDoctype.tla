---------------------------- MODULE GenDoctype ----------------------------
(* C17: every document type, known or not, with every explicit mode and in  *)
(* every role a template can have; the body tells the modes apart.          *)
EXTENDS GenBase

Pub(root, fpi, uri) == "<!DOCTYPE " \o root \o " PUBLIC \"" \o fpi \o "\" \"" \o uri \o "\">"
W3 == "http://www.w3.org/"
Dtds == <<
  [k |-> "", s |-> ""],
  [k |-> "html5", s |-> "<!DOCTYPE html>"],
  [k |-> "html5", s |-> "<!DOCTYPE HTML>"],
  [k |-> "html5", s |-> "<!DOCTYPE\n html>"],
  [k |-> "xhtml1transitional", s |-> Pub("html", "-//W3C//DTD XHTML 1.0 Transitional//EN", W3 \o "TR/xhtml1/DTD/xhtml1-transitional.dtd")],
  [k |-> "xhtml1strict", s |-> Pub("html", "-//W3C//DTD XHTML 1.0 Strict//EN", W3 \o "TR/xhtml1/DTD/xhtml1-strict.dtd")],
  [k |-> "xhtml1rdfa", s |-> Pub("html", "-//W3C//DTD XHTML+RDFa 1.0//EN", W3 \o "MarkUp/DTD/xhtml-rdfa-1.dtd")],
  [k |-> "xhtml11", s |-> Pub("html", "-//W3C//DTD XHTML 1.1//EN", W3 \o "TR/xhtml11/DTD/xhtml11.dtd")],
  [k |-> "xhtml1frameset", s |-> Pub("html", "-//W3C//DTD XHTML 1.0 Frameset//EN", W3 \o "TR/xhtml1/DTD/xhtml1-frameset.dtd")],
  [k |-> "xhtmlbasic11", s |-> Pub("html", "-//W3C//DTD XHTML Basic 1.1//EN", W3 \o "TR/xhtml-basic/xhtml-basic11.dtd")],
  [k |-> "xhtmlmobile12", s |-> Pub("html", "-//WAPFORUM//DTD XHTML Mobile 1.2//EN", "http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd")],
  [k |-> "html4transitional", s |-> Pub("html", "-//W3C//DTD HTML 4.01 Transitional//EN", W3 \o "TR/html4/loose.dtd")],
  [k |-> "html4transitional", s |-> Pub("HTML", "-//W3C//DTD HTML 4.01 Transitional//EN", W3 \o "TR/html4/loose.dtd")],
  [k |-> "html4strict", s |-> Pub("html", "-//W3C//DTD HTML 4.01//EN", W3 \o "TR/html4/strict.dtd")],
  [k |-> "html4strict", s |-> "<!DOCTYPE html\n  PUBLIC \"-//W3C//DTD HTML 4.01//EN\"\n  \"http://www.w3.org/TR/html4/strict.dtd\">"],
  [k |-> "html4frameset", s |-> Pub("html", "-//W3C//DTD HTML 4.01 Frameset//EN", W3 \o "TR/html4/frameset.dtd")],
  [k |-> "", s |-> "<!DOCTYPE note SYSTEM \"note.dtd\">"],
  [k |-> "", s |-> "<!DOCTYPE html SYSTEM \"about:legacy-compat\">"],
  [k |-> "", s |-> Pub("html", "-//W3C//DTD HTML 3.2 Final//EN", W3 \o "TR/html32.dtd")] >>

Modes == <<"", "xml", "html", "html5">>
Name(m, base) == base \o (CASE m = "html" -> ".html" [] m = "html5" -> ".html5" [] OTHER -> ".xml")

Body == <<nEl("br", <<>>), nEl("p", <<>>), nEl("i", <<nT("a < b")>>),
          nEl("script", <<nT("a < b")>>), nEl("script", <<>>),
          [nEl("input", <<>>) EXCEPT !.attrs = <<attrib("checked", <<aText("checked")>>)>>]>>

(* roles: page, fragment, page that is extended, page that extends, included, imported *)
Roles == 6
MyDims == <<Len(Dtds), 4, Roles, 4>>
MyBuild(c) ==
  LET d == Dtds[c[1]]
      m == Modes[c[2]]
      m2 == Modes[c[4]]
      me == [Tpl(Name(m, "t"), <<nEl("html", Body)>>) EXCEPT !.dtd = d.s, !.dtdkey = d.k, !.mode = m]
      other(root) == [Tpl(Name(m2, "o"), root) EXCEPT !.mode = m2]
      blk == <<nDir(dBlock("b"), Body)>>
      deff == <<nDir(dDef("f", <<>>), Body)>>
      tpls == CASE c[3] = 1 -> <<me>>
                [] c[3] = 2 -> <<[me EXCEPT !.frag = TRUE]>>
                [] c[3] = 3 -> <<other(<<nDir(dExtends(me.name), <<nDir(dBlock("b"), Body)>>)>>),
                                 [me EXCEPT !.root = <<nEl("html", <<nEl("hr", <<>>)>> \o blk)>>]>>
                [] c[3] = 4 -> <<[me EXCEPT !.root = <<nDir(dExtends("o" \o SubSeq(Name(m2, ""), 1, Len(Name(m2, "")))), <<nDir(dBlock("b"), Body)>>)>>,
                                            !.ext = TRUE],
                                 other(<<nEl("html", <<nEl("hr", <<>>)>> \o blk)>>)>>
                [] c[3] = 5 -> <<other(<<nEl("html", <<nInclude(me.name, "t")>>)>>), [me EXCEPT !.frag = TRUE]>>
                [] c[3] = 6 -> <<other(<<nEl("html", <<nImport(me.name, "t", FALSE), nE(eMCall("t", "f", <<>>))>>)>>),
                                 [me EXCEPT !.frag = TRUE, !.root = <<nEl("html", deff)>>]>>
      skip == c[3] \in {1, 2} /\ c[4] # 1
  IN  IF skip THEN NoJob ELSE JobOf(tpls, <<>>, "id")
=============================================================================
