----------------------------- MODULE Malformed ------------------------------
(* C21: templates with one mistake.  The document is written piece by piece *)
(* (prolog, opening of what surrounds the mistake, pieces before it, the    *)
(* mistake, the rest); the machine counts lines, and a mistake must be      *)
(* reported with the file and a line of its own.                            *)
EXTENDS Strings, TLC, Json, IOUtils

RECURSIVE Lines(_, _)
Lines(s, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = "\n" THEN 1 ELSE 0) + Lines(s, i + 1)
Height(s) == Lines(s, 1)

XmlPrologs == <<"", "<!DOCTYPE html>\n", "<?xml version=\"1.0\"?>\n", "<!-- one\ntwo -->\n",
             "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\"\n \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">\n",
             "<?xml version=\"1.0\"?>\n<!-- c -->\n<!DOCTYPE html>\n">>

Wrap(o, c) == [o |-> o, c |-> c]
XmlWraps == <<Wrap("<div>\n", "</div>"),
           Wrap("<div><p\n>\n", "</p></div>"),
           Wrap("<div><py:if test=\"x\">\n", "</py:if></div>"),
           Wrap("<div>\n<b py:for=\"i in [1]\"\n>", "</b></div>"),
           Wrap("<div><py:def function=\"f()\">\n", "</py:def></div>"),
           Wrap("<div><b py:with=\"v=1\">", "</b></div>"),
           Wrap("<div><py:block name=\"k\">\n", "</py:block></div>"),
           Wrap("<div><py:switch test=\"x\">\n<py:case value=\"1\">", "</py:case>\n</py:switch></div>"),
           Wrap("<div><script>a</script><b py:strip=\"x\">", "</b></div>"),
           Wrap("<py:nop>", "</py:nop>")>>

XmlFillers == <<"", "text\n", "<b/>\n", "<!-- c\nd -->\n", "<![CDATA[a\nb]]>\n", "<b\n a=\"1\"\n/>\n", "$x ${x}\n", "${x\n}\n",
             "<?py y = 1\nz = 2 ?>\n", "<b title=\"a\nb\">c</b>\n", "<py:if test=\"x\">a\n</py:if><py:else>b</py:else>\n",
             "&nbsp;\n", "<script>a\nb</script>\n", "\n", "<b a=\"$x\n\"/>", "  ", "<b>\n  $$ {}</b>">>

(* kind: the class of the error; from, to: which of its lines, counted from the one it starts on *)
Def(s, kind, from, to) == [s |-> s, kind |-> kind, from |-> from, to |-> to]
P(s) == Def(s, "XMLTemplateParseError", 0, 0)
C(s) == Def(s, "XMLTemplateCompileError", 0, 0)
(* refused, but the error speaks of the generated code *)
G(s) == Def(s, "", 0, 0)
XmlMistakes == <<
  P("</i>"), P("<"), P("& "), P("<i></u>"), P("<i a=\"1\" a=\"2\"/>"), P("<i a=1/>"), P("<i a/>"), P("<i a=\"<\"/>"),
  P("<!-- a -- b -->"), P("&nosuch;"), P("<?xml version=\"1.0\"?>"), Def("<i>", "XMLTemplateParseError", 1, 9),
  C("${x y}"), C("${1+}"), C("${'}"), C("${x"), C("a ${ }"), C("<i a=\"${x y}\"/>"), C("<i a=\"b ${1+} c\"/>"), C("<i a=\"${x\"/>"),
  Def("<i\n a=\"${x y}\"\n/>", "XMLTemplateCompileError", 0, 2), Def("a\n${x y}", "XMLTemplateCompileError", 1, 1),
  Def("<![CDATA[a\n${x y}]]>", "XMLTemplateCompileError", 0, 1), Def("${x\n}\n${x y}", "XMLTemplateCompileError", 2, 2),
  C("<i/><py:else>a</py:else>"), C("<i py:else=\"\"/>"), C("<py:if test=\"x\">a</py:if>z<py:else>b</py:else>"),
  C("<py:switch test=\"x\">a</py:switch>"), C("<py:switch test=\"x\"><i/></py:switch>"),
  Def("<py:switch test=\"x\">\n<py:case value=\"1\">a</py:case>\n<i/></py:switch>", "XMLTemplateCompileError", 0, 2),
  C("<py:for each=\"i in [1]\">a</py:for><py:else>b</py:else>"), C("<i py:for=\"i in [1]\"/><i py:else=\"\"/>"),
  C("<py:with vars=\"v=1\">a</py:with><py:else>b</py:else>"), C("<py:else>b</py:else>"), C("<py:if test=\"x\">a</py:if><py:else>b</py:else><py:else>c</py:else>"),
  C("<py:switch test=\"x\"><py:case value=\"1\">a</py:case>${x}</py:switch>"),
  C("<py:switch test=\"x\"><py:if test=\"x\"><py:case value=\"1\">a</py:case></py:if></py:switch>"),
  C("<py:switch test=\"x\" py:with=\"v=1\"><py:case value=\"1\">a</py:case></py:switch>"),
  C("<i py:switch=\"x\"><py:case value=\"1\">a</py:case></i>"),
  Def("<b/>\n<py:switch test=\"x\">\n\n<py:case value=\"1\">a</py:case>\n\n<i/>\n</py:switch>", "XMLTemplateCompileError", 1, 5),
  G("<i py:if=\"1+\"/>"), G("<py:if test=\"1+\">a</py:if>"), G("<i py:for=\"i\"/>"), G("<py:for each=\"1 in x\"/>"),
  G("<i py:with=\"a=\"/>"), G("<i py:content=\"1+\"/>"), G("<i py:replace=\"1+\"/>"), G("<i py:strip=\"1+\"/>"), G("<i py:attrs=\"1+\"/>"),
  G("<?py 1+ ?>"), G("<i py:def=\"g(\"/>"), G("<py:call function=\"g(\" args=\"\"/>"), G("$x.")>>

(* text templates: refused is all *)
TextPrologs == <<"", "a\n">>
TextWraps == <<Wrap("", ""), Wrap("b\n", "c"), Wrap("%if x\n", "%end"), Wrap("{%for i in [1]%}\n", "{%end%}"), Wrap("%def f()\n", "%end\n"),
               Wrap("{%switch x%}{%case 1%}\n", "{%end%}"), Wrap("%block k\n", "%end"), Wrap("{%if x%}a{%else%}\n", "{%end%}")>>
TextFillers == <<"", "text\n", "$x ${x}\n", "${x\n}\n", "%if x\na\n%end\n", "{%if x%}{%end%}", "100%\n", "$$\\\n", "\n", "it's {}\n">>
TextMistakes == <<G("$ "), G("$1"), G("${x"), G("${x y}"), G("${1+}"), G("${'"), G("{% if x%}"), G("{%if x"), G("$x."),
                  G("{%nosuch%}"), G("{%if 1+%}{%end%}"), G("{%for i%}{%end%}"), G("{%def g(%}{%end%}"), G("{%py 1+%}"),
                  G("{%with 1%}{%end%}"), G("{%import%}"), G("{%call f()%}{%end%}x${f(}")>>
IsText == IOEnv.KIND = "text"
Prologs == IF IsText THEN TextPrologs ELSE XmlPrologs
Wraps == IF IsText THEN TextWraps ELSE XmlWraps
Fillers == IF IsText THEN TextFillers ELSE XmlFillers
Mistakes == IF IsText THEN TextMistakes ELSE XmlMistakes

VARIABLES doc, line, phase, wrap, mistake, c
vars == <<doc, line, phase, wrap, mistake, c>>
ASSUME TLCSet(1, <<>>)
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
Deep == IOEnv.VERIF_TIER = "thorough"

Init == doc = "" /\ line = 1 /\ phase = "prolog" /\ wrap = 0 /\ mistake = [at |-> 0, m |-> 0] /\ c = <<>>
Write(s) == doc' = doc \o s /\ line' = line + Height(s)
Prolog == /\ phase = "prolog" /\ \E i \in DOMAIN Prologs : Write(Prologs[i]) /\ c' = <<i>>
          /\ phase' = "open" /\ UNCHANGED <<wrap, mistake>>
Open == /\ phase = "open" /\ \E i \in DOMAIN Wraps : Write(Wraps[i].o) /\ wrap' = i /\ c' = Append(c, i)
        /\ phase' = "before" /\ UNCHANGED mistake
(* what is not told apart: a fifth of the pairs of pieces *)
Before == /\ phase = "before" /\ Len(c) < 4
          /\ \E i \in DOMAIN Fillers :
               /\ IF Len(c) = 2 THEN TRUE
                  ELSE Fillers[i] # "" /\ Fillers[c[3]] # "" /\ (c[1] + 3 * c[2] + 5 * c[3] + 7 * i) % (IF Deep THEN 5 ELSE 60) = 0
               /\ Write(Fillers[i]) /\ c' = Append(c, i)
          /\ UNCHANGED <<phase, wrap, mistake>>
Slip == /\ phase = "before" /\ Len(c) >= 3
        /\ \E i \in 0..Len(Mistakes) :
             /\ (c[1] + c[2] + c[3] + i) % Parts = Part
             /\ IF Deep \/ i = 0 THEN TRUE ELSE (c[1] + 2 * c[2] + 3 * c[3] + i) % 4 = 0
             /\ Write((IF i = 0 THEN "" ELSE Mistakes[i].s) \o "\n")
             /\ mistake' = [at |-> line, m |-> i] /\ c' = c \o <<99, i>>
        /\ phase' = "close" /\ UNCHANGED wrap
Close == /\ phase = "close" /\ Write(Wraps[wrap].c) /\ phase' = "done" /\ UNCHANGED <<wrap, mistake, c>>
Next == Prolog \/ Open \/ Before \/ Slip \/ Close
Spec == Init /\ [][Next]_vars

(* the machine counts the lines of what it wrote *)
Counts == line = 1 + Height(doc)
Within == phase = "done" /\ mistake.m > 0 => mistake.at + Mistakes[mistake.m].from <= line

Meaning == IF mistake.m = 0 THEN [k |-> "ok", kind |-> "", from |-> 0, to |-> 0]
           ELSE LET m == Mistakes[mistake.m] IN
                [k |-> "err", kind |-> m.kind, from |-> mistake.at + m.from, to |-> mistake.at + m.to]
Emit == phase = "done" => TLCSet(1, Append(TLCGet(1), [c |-> c, doc |-> doc, want |-> Meaning]))
WriteAll == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
