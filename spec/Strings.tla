------------------------------ MODULE Strings ------------------------------
(* Character level vocabulary shared by all the modules.  TLC's strings are *)
(* sequences: Len, \o and SubSeq apply to them.                             *)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)

WS == {" ", "\n", "\t", "\r", "\f"}

RECURSIVE LeadWs(_, _)
LeadWs(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WS THEN LeadWs(s, i + 1) ELSE i - 1
RECURSIVE TrailWs(_, _)
TrailWs(s, i) == IF i >= 1 /\ Ch(s, i) \in WS THEN TrailWs(s, i - 1) ELSE i

Blank(s)  == LeadWs(s, 1) = Len(s)
LStrip(s) == SubSeq(s, LeadWs(s, 1) + 1, Len(s))
RStrip(s) == SubSeq(s, 1, TrailWs(s, Len(s)))
Strip(s)  == LStrip(RStrip(s))
LeadOf(s)  == SubSeq(s, 1, LeadWs(s, 1))
TrailOf(s) == SubSeq(s, TrailWs(s, Len(s)) + 1, Len(s))

(* What the user may rely on for interpolated values: these four characters *)
(* never reach the output as themselves.                                    *)
EscVal(c) == CASE c = "&"  -> "&amp;"
               [] c = "<"  -> "&lt;"
               [] c = ">"  -> "&gt;"
               [] c = "\"" -> "&quot;"
               [] OTHER    -> c
(* Character data written in the template itself is re-serialised.          *)
EscText(c) == CASE c = "&" -> "&amp;"
                [] c = "<" -> "&lt;"
                [] c = ">" -> "&gt;"
                [] OTHER   -> c

RECURSIVE MapVal(_, _, _)
MapVal(s, a, b) == IF a > b THEN ""
                   ELSE IF a = b THEN EscVal(Ch(s, a))
                   ELSE LET m == (a + b) \div 2 IN MapVal(s, a, m) \o MapVal(s, m + 1, b)
RECURSIVE MapText(_, _, _)
MapText(s, a, b) == IF a > b THEN ""
                    ELSE IF a = b THEN EscText(Ch(s, a))
                    ELSE LET m == (a + b) \div 2 IN MapText(s, a, m) \o MapText(s, m + 1, b)

Escape(s)     == MapVal(s, 1, Len(s))
EscapeText(s) == MapText(s, 1, Len(s))

(* Inverse of Escape: what an XML reader recovers.                          *)
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE UnescTo(_, _, _), UnescIn(_, _, _)
UnescTo(s, i, b) ==
  IF i > b THEN ""
  ELSE IF At(s, i, "&amp;")  THEN "&"  \o UnescTo(s, i + 5, b)
  ELSE IF At(s, i, "&lt;")   THEN "<"  \o UnescTo(s, i + 4, b)
  ELSE IF At(s, i, "&gt;")   THEN ">"  \o UnescTo(s, i + 4, b)
  ELSE IF At(s, i, "&quot;") THEN "\"" \o UnescTo(s, i + 6, b)
  ELSE Ch(s, i) \o UnescTo(s, i + 1, b)
(* (long strings in halves, so that the recursion is not deep) *)
UnescIn(s, a, b) ==
  IF b - a < 64 THEN UnescTo(s, a, b)
  ELSE LET m == (a + b) \div 2
           amps == {i \in m - 5 .. m : Ch(s, i) = "&"}
           p == IF amps = {} THEN m ELSE (CHOOSE i \in amps : \A k \in amps : i <= k) - 1
       IN  UnescIn(s, a, p) \o UnescIn(s, p + 1, b)
Unescape(s) == UnescIn(s, 1, Len(s))

RECURSIVE HasCharIn(_, _, _, _)
HasCharIn(s, a, b, cs) ==
  IF a > b THEN FALSE
  ELSE IF a = b THEN Ch(s, a) \in cs
  ELSE LET m == (a + b) \div 2 IN HasCharIn(s, a, m, cs) \/ HasCharIn(s, m + 1, b, cs)
HasChar(s, cs) == HasCharIn(s, 1, Len(s), cs)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN ""
                        ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)
=============================================================================
