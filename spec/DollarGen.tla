----------------------------- MODULE DollarGen ------------------------------
(* Every string over the alphabet, up to a length: a state is a string, a   *)
(* step appends one character.                                              *)
EXTENDS Dollar, TLC, Json, IOUtils

Alphabet == {"$", "{", "}", "x", ".", "'", " ", "\n", "_", ","}
Max == IF IOEnv.VERIF_TIER = "thorough" THEN 6 ELSE 5
ASSUME TLCSet(1, <<>>)
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
Order == <<"$", "{", "}", "x", ".", "'", " ", "\n", "_", ",">>
(* the shape of a meaning does not depend on the place: only on lone *)
Index(c) == CHOOSE i \in DOMAIN Order : Order[i] = c

VARIABLE s
Init == s = ""
Mine(w) == IF Len(w) < 2 THEN TRUE ELSE (Index(Ch(w, 1)) * 10 + Index(Ch(w, 2))) % Parts = Part
Next == /\ Len(s) < Max
        /\ \E c \in Alphabet : Mine(s \o c) /\ s' = s \o c
Spec == Init /\ [][Next]_s

Ps(lone) == Pieces(s, 1, lone)
(* Invariants of the specification itself *)
RECURSIVE Doubled(_, _)
Doubled(w, i) == IF i > Len(w) THEN "" ELSE (IF Ch(w, i) = "$" THEN "$$" ELSE Ch(w, i)) \o Doubled(w, i + 1)
(* every text can be written: doubling dollar signs protects it *)
Protects == \A p \in {"text", "plain"} :
              LET m == Meaning(p, Doubled(s, 1)) IN m.status = "ok" /\ m.out = StaticAs(p, s)
(* without a dollar sign there is only text *)
Inert == ~HasChar(s, {"$"}) => Out("plain", Ps(FALSE)) = s
(* text templates accept no more than XML ones, and mean the same *)
Agree == LET a == Meaning("text", s) b == Meaning("plain", s) IN
         /\ b.status = "ok" => a.status = "ok"
         /\ b.status = "ok" => Ps(TRUE) = Ps(FALSE)
(* what follows a complete string cannot change what it means *)
Compositional ==
  Len(s) >= 1 =>
    LET a == SubSeq(s, 1, Len(s) - 1)
        pa == Pieces(a, 1, FALSE)
    IN  (Status(pa) = "ok" /\ Ch(s, Len(s)) \in {" ", "\n"}) =>
          Ps(FALSE) = Append(pa, pText(Ch(s, Len(s))))
Escaped == \A p \in {"text", "attribute", "escaped"} :
             LET m == Meaning(p, s) IN m.status = "ok" => ~HasChar(m.out, {"<"})

Interesting == HasChar(s, {"$"}) /\ (Len(s) > 1 \/ Part = 0) /\ (Len(s) < Max \/ Ch(s, 1) = "$")
               /\ (Len(s) < 4 \/ Ch(s, 1) = "$" \/ ~HasChar(s, {"_", ","}))
Emit == Interesting =>
        TLCSet(1, Append(TLCGet(1), [c |-> s, ms |-> [i \in DOMAIN Places |-> Meaning(Places[i], s)]]))
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
