------------------------------ MODULE TextScan ------------------------------
(* C15: the syntax of text templates, character by character.               *)
(*                                                                          *)
(*   %tag args      at the start of a line (after spaces): the whole line   *)
(*                  is the tag and outputs nothing                          *)
(*   {%tag args%}   anywhere, outputs nothing                               *)
(*   {%-            also removes the spaces before it                       *)
(*   -%}            also removes the spaces after it                        *)
(*   \ at the end of a line joins it with the next one; \\ is a backslash   *)
(*   $              Dollar.tla                                              *)
(* Everything else is text.  The tags are if, else, for and end, with known *)
(* arguments: t is true, f is false, l is the list 1, 2.                    *)
EXTENDS Dollar

LineStart(s, i) == IF i = 1 THEN TRUE ELSE Ch(s, i - 1) = "\n"
Lower == {"i", "f", "e", "l", "s", "n", "d", "o", "r", "a", "x", "t", "b"}
IsLetter(s, i) == i <= Len(s) /\ Ch(s, i) \in Lower
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF IsLetter(s, i) THEN WordEnd(s, i + 1) ELSE i
Word(s, i) == SubSeq(s, i, WordEnd(s, i) - 1)
Blanks == {" ", "\t"}
RECURSIVE Find(_, _, _)
Find(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF At(s, i, p) THEN i ELSE Find(s, i + 1, p)

tText(s) == [k |-> "text", s |-> s, a |-> ""]
tVar == [k |-> "var", s |-> "", a |-> ""]
tErr == [k |-> "err", s |-> "", a |-> ""]
tUnk == [k |-> "unk", s |-> "", a |-> ""]
tTag(n, a) ==
  IF \/ n = "if" /\ a \in {"t", "f"}
     \/ n = "for" /\ a = "i in l"
     \/ n \in {"else", "end"} /\ a = ""
  THEN [k |-> n, s |-> "", a |-> a] ELSE tUnk

(* a tag that owns its line, or removes the space before it *)
LineTag(s, i) == At(s, i, "%") /\ IsLetter(s, i + 1)
JustTag(s, i) == At(s, i, "{%-") /\ IsLetter(s, i + 3)

RECURSIVE Lex(_, _)
TagBody(s, i, e) == Strip(SubSeq(s, i, e - 1))
Braces(s, i) ==      \* i: the name of the tag
  LET e == Find(s, i, "%}")
      n == WordEnd(s, i)
      just == e > i /\ Ch(s, e - 1) = "-"
      next == IF just THEN SkipIn(s, e + 2, Blanks) ELSE e + 2
  IN  IF e = 0 THEN <<tErr>>
      ELSE <<tTag(Word(s, i), TagBody(s, n, IF just THEN e - 1 ELSE e))>> \o Lex(s, next)
Line(s, i) ==
  LET e0 == Find(s, i, "\n")
      e == IF e0 = 0 THEN Len(s) + 1 ELSE e0
  IN  <<tTag(Word(s, i), TagBody(s, WordEnd(s, i), e))>> \o Lex(s, e + 1)
Value(s, i) ==
  LET c == Here(s, i + 1)
      r == IF c = "{" THEN Braced(s, i + 2) ELSE Named(s, i + 1)
      src == SubSeq(s, i, r.p - 1)
  IN  IF c = "$" THEN <<tText("$")>> \o Lex(s, i + 2)
      ELSE IF c \notin NameStart \cup {"{"} THEN <<tErr>>
      ELSE IF r.st = "syn" THEN <<tUnk>>
      ELSE IF r.st = "unk" THEN <<tUnk>>
      ELSE IF src \in {"$i", "${i}"} THEN <<tVar>> \o Lex(s, r.p)
      ELSE IF r.v.t \in {"unspec", "err"} THEN <<tUnk>>
      ELSE <<tText(r.v.s)>> \o Lex(s, r.p)
Lex(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE
  LET c == Ch(s, i)
      b == SkipIn(s, i, Blanks)
      far == SkipIn(s, i, WS)
  IN  IF LineStart(s, i) /\ LineTag(s, b) THEN Line(s, b + 1)
      ELSE IF JustTag(s, b) THEN Braces(s, b + 3)
      \* an empty line before a tag: the manual does not say
      ELSE IF LineStart(s, i) /\ far > b /\ (LineTag(s, far) \/ JustTag(s, far)) THEN <<tUnk>>
      ELSE IF c = "$" THEN Value(s, i)
      ELSE IF At(s, i, "{%") THEN (IF IsLetter(s, i + 2) THEN Braces(s, i + 2) ELSE <<tErr>>)
      ELSE IF c = "\\"
      THEN (IF At(s, i + 1, "\n") THEN Lex(s, i + 2)
            ELSE IF At(s, i + 1, "\r\n") THEN Lex(s, i + 3)
            ELSE IF At(s, i + 1, "\\") THEN <<tText("\\")>> \o Lex(s, i + 2)
            ELSE IF i = Len(s) THEN <<tText(c)>>
            ELSE <<tUnk>>)
      ELSE <<tText(c)>> \o Lex(s, i + 1)

(* Running the tokens: the result says where it stopped and why *)
(* env: the value of i, "" when it has none, "?" after a loop *)
Res(p, stop, env, bad) == [p |-> p, stop |-> stop, out |-> "", rt |-> FALSE, env |-> env, bad |-> bad]
Then(r, out, rt) == [r EXCEPT !.out = out \o r.out, !.rt = r.rt \/ rt]
RECURSIVE Run(_, _, _)
Run(ts, p, env) ==
  IF p > Len(ts) THEN Res(p, "eof", env, "")
  ELSE
  LET t == ts[p] IN
  CASE t.k = "text" -> Then(Run(ts, p + 1, env), t.s, FALSE)
    [] t.k = "var"  -> IF env = "?" THEN Res(p, "eof", env, "unk") ELSE Then(Run(ts, p + 1, env), env, env = "")
    [] t.k \in {"err", "unk"} -> Res(p, "eof", env, t.k)
    [] t.k \in {"else", "end"} -> Res(p, t.k, env, "")
    [] t.k = "if" ->
         LET a == Run(ts, p + 1, env)
             b == IF a.stop = "else" THEN Run(ts, a.p + 1, env) ELSE Res(a.p, a.stop, env, a.bad)
             take == IF t.a = "t" THEN a ELSE b
         IN  IF a.bad # "" THEN a ELSE IF b.bad # "" THEN b
             ELSE IF b.stop # "end" THEN Res(p, "eof", env, "unk")
             ELSE Then(Run(ts, b.p + 1, take.env), take.out, take.rt)
    [] t.k = "for" ->
         LET a == Run(ts, p + 1, "1")
             b == Run(ts, p + 1, "2")
         IN  IF a.bad # "" THEN a
             ELSE IF a.stop # "end" THEN Res(p, "eof", env, "unk")
             ELSE Then(Run(ts, a.p + 1, "?"), a.out \o b.out, a.rt \/ b.rt)

MeaningOf(s) ==
  LET ts == Lex(s, 1)
      hasunk == \E i \in DOMAIN ts : ts[i].k = "unk"
      r == Run(ts, 1, "")
  IN  IF hasunk \/ r.bad = "unk" \/ r.stop = "else" THEN [status |-> "unspec", out |-> ""]
      ELSE IF r.bad = "err" \/ r.stop = "end" \/ r.rt THEN [status |-> "err", out |-> ""]
      ELSE [status |-> "ok", out |-> r.out]
=============================================================================
