------------------------------ MODULE XmlRead -------------------------------
(* A reader of XML content: elements, attributes, character data,           *)
(* references, comments and CDATA sections.  It says whether a text is well *)
(* formed, and what a reader recovers from it.                              *)
EXTENDS Strings

NameChars == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v",
              "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
              "T", "U", "V", "W", "X", "Y", "Z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", "-", "_", "."}
Cur(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE ""
RECURSIVE NmEnd(_, _)
NmEnd(s, i) == IF Cur(s, i) \in NameChars THEN NmEnd(s, i + 1) ELSE i
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF Cur(s, i) \in WS THEN SkipWs(s, i + 1) ELSE i
RECURSIVE Seek(_, _, _)
Seek(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF At(s, i, p) THEN i ELSE Seek(s, i + 1, p)

(* after the reference at i, 0: not a reference *)
Ref(s, i) == LET j == IF Cur(s, i + 1) = "#" THEN i + 2 ELSE i + 1
                 e == NmEnd(s, j)
             IN  IF e > j /\ Cur(s, e) = ";" THEN e + 1 ELSE 0

(* All of these give the position after what they read, 0: not well formed *)
RECURSIVE AttVal(_, _), Atts(_, _, _), Content(_, _), Element(_, _)
AttVal(s, i) == IF i > Len(s) THEN 0
                ELSE IF Ch(s, i) = "\"" THEN i + 1
                ELSE IF Ch(s, i) = "<" THEN 0
                ELSE IF Ch(s, i) = "&" THEN (IF Ref(s, i) = 0 THEN 0 ELSE AttVal(s, Ref(s, i)))
                ELSE AttVal(s, i + 1)
(* the attributes of a tag: up to its > or /> *)
Atts(s, i, seen) ==
  LET j == SkipWs(s, i) IN
  IF Cur(s, j) \in {">", "/"} THEN j
  ELSE LET e == NmEnd(s, j)
           name == SubSeq(s, j, e - 1)
       IN  IF j = i \/ e = j THEN 0
           ELSE IF name \in seen THEN 0
           ELSE IF ~At(s, e, "=\"") THEN 0
           ELSE LET v == AttVal(s, e + 2) IN IF v = 0 THEN 0 ELSE Atts(s, v, seen \cup {name})
Element(s, i) ==
  LET e == NmEnd(s, i + 1)
      name == SubSeq(s, i + 1, e - 1)
      a == IF e = i + 1 THEN 0 ELSE Atts(s, e, {})
  IN  IF a = 0 THEN 0
      ELSE IF At(s, a, "/>") THEN a + 2
      ELSE IF Cur(s, a) # ">" THEN 0
      ELSE LET c == Content(s, a + 1)
               close == "</" \o name \o ">"
           IN  IF c = 0 THEN 0 ELSE IF At(s, c, close) THEN c + Len(close) ELSE 0
(* up to an end tag or the end *)
Content(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF At(s, i, "</") THEN i
  ELSE IF At(s, i, "<!--")
  THEN LET e == Seek(s, i + 4, "--") IN IF e = 0 THEN 0 ELSE IF At(s, e, "-->") THEN Content(s, e + 3) ELSE 0
  ELSE IF At(s, i, "<![CDATA[")
  THEN LET e == Seek(s, i + 9, "]]>") IN IF e = 0 THEN 0 ELSE Content(s, e + 3)
  ELSE IF Ch(s, i) = "<" THEN LET e == Element(s, i) IN IF e = 0 THEN 0 ELSE Content(s, e)
  ELSE IF Ch(s, i) = "&" THEN (IF Ref(s, i) = 0 THEN 0 ELSE Content(s, Ref(s, i)))
  ELSE IF At(s, i, "]]>") THEN 0
  ELSE Content(s, i + 1)
WellFormed(s) == Content(s, 1) = Len(s) + 1

ASSUME /\ WellFormed("<a b=\"1\" c=\"&lt;\">x<b/>&amp;<!-- c --><![CDATA[<]]></a>")
       /\ \A bad \in {"<a>", "</a>", "<a></b>", "<a b=1/>", "<a b=\"1\" b=\"2\"/>", "&", "a < b", "<a b=\"<\"/>", "<!-- -- -->", "]]>",
                      "<![CDATA[", "<a b=\"1\"c=\"2\"/>", "<a b=\"&\"/>"} : ~WellFormed(bad)
=============================================================================
