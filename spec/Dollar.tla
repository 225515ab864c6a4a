------------------------------- MODULE Dollar -------------------------------
(* C18: what the dollar sign means, character by character.                 *)
(*                                                                          *)
(*   $$          a dollar sign                                              *)
(*   $name.name  the value of the longest name (with periods) that follows  *)
(*   ${expr}     the value of the Python expression up to the brace that    *)
(*               ends it: braces inside strings or displays do not count    *)
(*   $           anything else: a dollar sign in XML, an error in text      *)
(*                                                                          *)
(* Expressions are read with a small grammar of Python (names, attributes,  *)
(* strings, displays, tuples, parentheses); a string that uses more of Python has the meaning    *)
(* "unspecified" and claims nothing.                                        *)
EXTENDS Strings

Letters == {"_", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NameStart == Letters
NameChar == Letters \cup Digits
Quotes == {"'", "\""}
(* characters that start something in Python that the grammar leaves out *)
Other == {"<", "&", ">", "[", "]", "+", "*", "/", "%", ":", ";", "=", "!", "@", "|", "~", "^", "?", "`", "(", ")", "-", ",", "#", "\\"} \cup Digits

(* Values: x and X are objects whose attribute x is the object itself *)
vStr(s) == [t |-> "str", s |-> s]
vObj(s) == [t |-> "obj", s |-> s]
vDisp(s) == [t |-> "disp", s |-> s]
vTup(s) == [t |-> "tup", s |-> s]
vErr == [t |-> "err", s |-> ""]
vUnk == [t |-> "unspec", s |-> ""]
Names == {"x", "X", "xx", "x1", "x_", "_x", "x_x", "_1"}
Lookup(n) == IF n = "_" THEN vUnk ELSE IF n \notin Names THEN vErr
             ELSE vObj(CASE n = "x" -> "V<" [] n = "X" -> "W&" [] OTHER -> n)
Attr(v, n) == IF v.t = "unspec" THEN v ELSE IF v.t = "obj" /\ n = "x" THEN v ELSE vErr

RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in NameChar THEN NameEnd(s, i + 1) ELSE i
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, cs) == IF i <= Len(s) /\ Ch(s, i) \in cs THEN SkipIn(s, i + 1, cs) ELSE i
Here(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE "\f"   \* \f: nothing left

(* r.st: ok, syn (not Python), unk (not in the grammar); r.p: what follows *)
Ok(p, v) == [st |-> "ok", p |-> p, v |-> v]
Syn == [st |-> "syn", p |-> 0, v |-> vErr]
Unk == [st |-> "unk", p |-> 0, v |-> vUnk]

(* the end of a string literal whose text starts at i; 0: none *)
RECURSIVE Closing(_, _, _, _)
Closing(s, i, q, long) ==
  IF i > Len(s) THEN 0
  ELSE IF At(s, i, q) THEN i
  ELSE IF ~long /\ Ch(s, i) = "\n" THEN 0
  ELSE IF Ch(s, i) = "\\" THEN Closing(s, i + 2, q, long)
  ELSE Closing(s, i + 1, q, long)

StringAt(s, i) ==
  LET q == Ch(s, i)
      long == At(s, i, q \o q \o q)
      w == IF long THEN q \o q \o q ELSE q
      e == Closing(s, i + Len(w), w, long)
      body == SubSeq(s, i + Len(w), e - 1)
  IN  IF e = 0 THEN Syn
      ELSE IF HasChar(body, {"\\"}) THEN Ok(e + Len(w), vUnk)
      ELSE Ok(e + Len(w), vStr(body))

ReprStr(s) == IF HasChar(s, {"\n", "\\"}) \/ (HasChar(s, {"'"}) /\ HasChar(s, {"\""})) THEN vUnk
              ELSE IF HasChar(s, {"'"}) THEN vDisp("{\"" \o s \o "\"}") ELSE vDisp("{'" \o s \o "'}")
SetOf(v) == CASE v.t = "str" -> ReprStr(v.s)
              [] v.t = "obj" -> vDisp("{" \o v.s \o "}")
              [] v.t = "disp" -> vErr
              [] v.t = "tup" -> vUnk
              [] OTHER -> v
(* how a value is written in a tuple *)
Quoted(v) == IF v.t # "str" THEN v
             ELSE LET r == ReprStr(v.s) IN IF r.t = "unspec" THEN r ELSE vDisp(SubSeq(r.s, 2, Len(r.s) - 1))
Tuple(vs) ==
  LET qs == [i \in DOMAIN vs |-> Quoted(vs[i])] IN
  IF \E i \in DOMAIN qs : qs[i].t = "unspec" THEN vUnk
  ELSE IF \E i \in DOMAIN qs : qs[i].t = "err" THEN vErr
  ELSE vTup("(" \o Join([i \in DOMAIN qs |-> qs[i].s], ", ") \o (IF Len(qs) = 1 THEN ",)" ELSE ")"))

Spaces(inb) == IF inb THEN {" ", "\n"} ELSE {" "}

RECURSIVE Expr(_, _, _), Strs(_, _, _, _), Dots(_, _, _, _), More(_, _, _, _, _)
(* an expression at i, inside brackets or not *)
Expr(s, i, inb) ==
  LET c == Here(s, i) IN
  IF c \in NameStart
  THEN LET e == NameEnd(s, i) IN
       IF Here(s, e) \in Quotes /\ Ch(s, e - 1) # "x" THEN Unk     \* the prefix of a string
       ELSE Dots(s, e, inb, Lookup(SubSeq(s, i, e - 1)))
  ELSE IF c \in Quotes THEN Strs(s, i, inb, vStr(""))
  ELSE IF c = "{"
  THEN LET j == SkipIn(s, i + 1, Spaces(TRUE)) IN
       IF Here(s, j) = "}" THEN Dots(s, j + 1, inb, vDisp("{}"))
       ELSE LET r == Expr(s, j, TRUE) IN
            IF r.st # "ok" THEN r
            ELSE IF Here(s, r.p) = "}" THEN Dots(s, r.p + 1, inb, SetOf(r.v))
            ELSE IF Here(s, r.p) \in Other THEN Unk ELSE Syn
  ELSE IF c = "("
  THEN LET j == SkipIn(s, i + 1, Spaces(TRUE)) IN
       IF Here(s, j) = ")" THEN Dots(s, j + 1, inb, vTup("()"))
       ELSE LET r == More(s, j, TRUE, <<>>, ")") IN
            IF r.st # "ok" THEN r
            ELSE IF Here(s, r.p) = ")" THEN Dots(s, r.p + 1, inb, r.v)
            ELSE IF Here(s, r.p) \in Other THEN Unk ELSE Syn
  ELSE IF c \in Other THEN Unk ELSE Syn
(* an expression, or several with commas: a tuple *)
More(s, i, inb, vs, end) ==
  LET r == Expr(s, i, inb)
      ws == Append(vs, r.v)
  IN  IF r.st # "ok" THEN r
      ELSE IF Here(s, r.p) # "," THEN Ok(r.p, IF vs = <<>> THEN r.v ELSE Tuple(ws))
      ELSE LET j == SkipIn(s, r.p + 1, Spaces(inb)) IN
           IF Here(s, j) = end THEN Ok(j, Tuple(ws))
           ELSE IF Here(s, j) = "\n" THEN Unk
           ELSE More(s, j, inb, ws, end)
(* one or more string literals *)
Strs(s, i, inb, v) ==
  LET r == StringAt(s, i) IN
  IF r.st # "ok" THEN r
  ELSE LET w == IF v.t = "str" /\ r.v.t = "str" THEN vStr(v.s \o r.v.s) ELSE vUnk
           j == SkipIn(s, r.p, Spaces(inb))
       IN  IF Here(s, j) \in Quotes THEN Strs(s, j, inb, w) ELSE Dots(s, r.p, inb, w)
(* attributes, and the white space after the expression *)
Dots(s, i, inb, v) ==
  LET j == SkipIn(s, i, Spaces(inb)) IN
  IF Here(s, j) # "." THEN Ok(j, v)
  ELSE LET k == SkipIn(s, j + 1, Spaces(inb)) IN
       IF Here(s, k) \in NameStart
       THEN LET e == NameEnd(s, k) IN Dots(s, e, inb, Attr(v, SubSeq(s, k, e - 1)))
       ELSE IF Here(s, k) \in Other \cup {"\n"} THEN Unk ELSE Syn

(* the expression after ${ *)
Braced(s, i) ==
  LET r == More(s, SkipIn(s, i, Spaces(TRUE)), FALSE, <<>>, "}") IN
  IF r.st # "ok" THEN r
  ELSE LET j == SkipIn(s, r.p, Spaces(TRUE)) IN
       IF Here(s, j) = "}" THEN Ok(j + 1, r.v)
       ELSE IF Here(s, j) \in Other THEN Unk
       ELSE IF j > r.p /\ HasChar(SubSeq(s, r.p, j - 1), {"\n"}) /\ j <= Len(s) THEN Unk  \* a second line
       ELSE Syn

(* the name after $ : letters, digits and periods *)
RECURSIVE PathEnd(_, _)
PathEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in NameChar \cup {"."} THEN PathEnd(s, i + 1) ELSE i
RECURSIVE PathValue(_, _, _)
PathValue(s, i, v) ==     \* s: the text after a name
  IF i > Len(s) THEN v
  ELSE LET e == NameEnd(s, i + 1) IN
       IF e = i + 1 \/ Ch(s, i + 1) \notin NameStart THEN vErr    \* not Python: a period at the end, a digit
       ELSE PathValue(s, e, Attr(v, SubSeq(s, i + 1, e - 1)))
Named(s, i) ==
  LET e == PathEnd(s, i)
      p == SubSeq(s, i, e - 1)
      h == NameEnd(p, 1)
  IN  Ok(e, PathValue(p, h, Lookup(SubSeq(p, 1, h - 1))))

(* Pieces: the meaning of a whole string.  lone: a lone dollar sign is text *)
pText(s) == [k |-> "text", s |-> s]
pVal(v) == [k |-> "val", s |-> v.s]
pErr == [k |-> "err", s |-> ""]
pUnk == [k |-> "unspec", s |-> ""]
RECURSIVE Pieces(_, _, _)
Pieces(s, i, lone) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) # "$" THEN <<pText(Ch(s, i))>> \o Pieces(s, i + 1, lone)
  ELSE LET c == Here(s, i + 1)
           r == IF c = "{" THEN Braced(s, i + 2) ELSE Named(s, i + 1)
       IN  IF c = "$" THEN <<pText("$")>> \o Pieces(s, i + 2, lone)
           ELSE IF c \notin NameStart \cup {"{"}
           THEN (IF lone THEN <<pText("$")>> \o Pieces(s, i + 1, lone) ELSE <<pErr>>)
           ELSE IF r.st = "syn"
           THEN (IF ~lone /\ Here(s, SkipIn(s, i + 2, Spaces(TRUE))) = "}" THEN <<pUnk>> ELSE <<pErr>>)
           ELSE IF r.st = "unk" \/ r.v.t = "unspec" THEN <<pUnk>>
           ELSE IF r.v.t = "err" THEN <<pErr>> \o Pieces(s, r.p, lone)
           ELSE <<pVal(r.v)>> \o Pieces(s, r.p, lone)

Has(ps, k) == \E i \in DOMAIN ps : ps[i].k = k
Status(ps) == IF Has(ps, "unspec") THEN "unspec" ELSE IF Has(ps, "err") THEN "err" ELSE "ok"

(* Where the string is written *)
Places == <<"text", "attribute", "cdata", "script", "plain", "escaped">>
Lone(place) == place \notin {"plain", "escaped"}
StaticAs(place, s) == CASE place = "text" -> EscapeText(s)
                        [] place = "attribute" -> Escape(s)
                        [] OTHER -> s
ValueAs(place, s) == IF place = "plain" THEN s ELSE Escape(s)
Out(place, ps) == Join([i \in DOMAIN ps |-> IF ps[i].k = "text" THEN StaticAs(place, ps[i].s)
                                             ELSE ValueAs(place, ps[i].s)], "")
Meaning(place, s) ==
  LET ps == Pieces(s, 1, Lone(place)) IN
  [place |-> place, status |-> Status(ps), out |-> IF Status(ps) = "ok" THEN Out(place, ps) ELSE ""]
=============================================================================
