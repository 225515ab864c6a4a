---------------------------- MODULE TextScanGen -----------------------------
(* Every sequence of tokens up to a length whose tags are balanced (shorter *)
(* ones whether or not they are): a step appends a token.                   *)
EXTENDS TextScan, TLC, Json, IOUtils

Texts == <<"a", " ", "\n", "\\", "%", "{", "$x", "$$", "$i">>
Opens == <<"{%if t%}", "{%-if f%}", "{%if t-%}", "%if t\n", "%if t\r\n", " %if f\n", "%for i in l\n", "{%for i in l%}">>
Mids == <<"{%else%}", "{%-else-%}", "%else\n">>
Ends == <<"{%end%}", "{%-end%}", "{%end-%}", "%end\n", " %end\n", "%end\r\n">>
Toks == Texts \o Opens \o Mids \o Ends
Level(i) == IF i <= Len(Texts) THEN "text" ELSE IF i <= Len(Texts) + Len(Opens) THEN "open"
            ELSE IF i <= Len(Texts) + Len(Opens) + Len(Mids) THEN "mid" ELSE "end"

Max == IF IOEnv.VERIF_TIER = "thorough" THEN 5 ELSE 4
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
ASSUME TLCSet(1, <<>>)

VARIABLES q, depth
Init == q = <<>> /\ depth = 0
Mine(w) == IF Len(w) < 2 THEN TRUE ELSE (w[1] * 29 + w[2]) % Parts = Part
After(d, i) == CASE Level(i) = "open" -> d + 1 [] Level(i) = "end" -> d - 1 [] OTHER -> d
Next == \E i \in DOMAIN Toks :
          LET d == After(depth, i) IN
          /\ IF Len(q) < 2 THEN TRUE
             ELSE /\ d >= 0 /\ d <= Max - Len(q) - 1
                  /\ Level(i) # "mid" \/ depth > 0
          /\ Len(q) < Max
          /\ Mine(Append(q, i))
          /\ q' = Append(q, i) /\ depth' = d
Spec == Init /\ [][Next]_<<q, depth>>

RECURSIVE Source(_, _)
Source(w, i) == IF i > Len(w) THEN "" ELSE Toks[w[i]] \o Source(w, i + 1)
S == Source(q, 1)
M == MeaningOf(S)

(* Invariants of the specification itself *)
(* a line before adds itself, whatever follows *)
PrefixLine == LET m == MeaningOf("a\n" \o S) IN
              M.status # "unspec" /\ m.status # "unspec" =>
                m.status = M.status /\ (M.status = "ok" => m.out = "a\n" \o M.out)
(* nothing but text, nothing lost *)
JustText == (\A i \in DOMAIN q : Toks[q[i]] \in {"a", " ", "\n", "%", "{"}) =>
              M.status = "unspec" \/ M.status = "err" \/ M.out = S
(* a line tag means the same as a tag in braces and a joined line *)
Alt(i) == CASE Toks[i] = "%if t\n" -> "{%if t%}\\\n"
            [] Toks[i] = " %if f\n" -> "{%-if f%}\\\n"
            [] Toks[i] = "%for i in l\n" -> "{%for i in l%}\\\n"
            [] Toks[i] = "%else\n" -> "{%else%}\\\n"
            [] Toks[i] = "%end\n" -> "{%end%}\\\n"
            [] Toks[i] = " %end\n" -> "{%-end%}\\\n"
            [] OTHER -> Toks[i]
RECURSIVE AltSource(_, _, _)
AltSource(w, i, pre) ==
  IF i > Len(w) THEN pre
  ELSE LET own == IF pre = "" THEN TRUE ELSE Ch(pre, Len(pre)) = "\n"
       IN  AltSource(w, i + 1, pre \o (IF own THEN Alt(w[i]) ELSE Toks[w[i]]))
SameForms == LET m == MeaningOf(AltSource(q, 1, "")) IN
             M.status = "ok" /\ m.status # "unspec" => m = M

Emit == (Len(q) > 1 \/ Part = 0) /\ Len(q) > 0 /\ M.status # "unspec" =>
        TLCSet(1, Append(TLCGet(1), [c |-> q, s |-> S, status |-> M.status, out |-> M.out]))
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
