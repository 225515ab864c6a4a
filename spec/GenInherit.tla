----------------------------- MODULE GenInherit -----------------------------
(* C08: chains of three templates.  A function f is defined in any subset   *)
(* of them, each definition calling the inherited one or not; a block of    *)
(* the base is overridden in any subset; f is called from every place, in   *)
(* every way (f, self.f, local.f, parent.f, child.f).                       *)
EXTENDS GenBase

Bit(n, k) == (n \div (2^k)) % 2 = 1
Name(l) == <<"leaf.html", "mid.html", "base.html">>[l + 1]
TName(l) == <<"leaf.txt", "mid.txt", "base.txt">>[l + 1]
Ways == <<"", "self", "local", "parent", "child">>
CallF(w) == IF w = "" THEN eCall("f", <<>>) ELSE eMCall(w, "f", <<>>)
Dig(l) == <<"0", "1", "2">>[l + 1]

(* 1: base page, 2: base block, 3/4: overriding block of mid/leaf,          *)
(* 5/6/7: a function g of base/mid/leaf, called from the base page          *)
Sites == 7

DefF(c, l) == IF ~Bit(c[1] - 1, l) THEN <<>>
              ELSE <<nDir(dDef("f", <<>>), <<nT("f" \o Dig(l))>> \o
                     (IF c[2] = 2 /\ \E k \in (l + 1)..2 : Bit(c[1] - 1, k)
                      THEN <<nT("^"), nE(eMCall("parent", "f", <<>>))>> ELSE <<>>))>>
DefG(c, l) == IF c[6] = 7 - l
              THEN <<nDir(dDef("g", <<>>), <<nT("g"), nE(CallF(Ways[c[5]]))>>)>>
              ELSE <<>>
Over(c, l) == IF ~Bit(c[3] - 1, l) THEN <<>>
              ELSE <<nDir(dBlock("b"), <<nT("b" \o Dig(l))>>
                     \o (IF c[4] = 2 THEN <<nE(eCall("parent_block", <<>>))>> ELSE <<>>)
                     \o (IF c[6] = 4 - l THEN <<nE(CallF(Ways[c[5]]))>> ELSE <<>>))>>

MyDims == <<8, 2, 4, 2, 5, Sites, 2>>
MyBuild(c) ==
  LET text == c[7] = 2
      nm(l) == IF text THEN TName(l) ELSE Name(l)
      call == CallF(Ways[c[5]])
      block == nDir(dBlock("b"), <<nT("B")>> \o (IF c[6] = 2 THEN <<nE(call)>> ELSE <<>>))
      page == <<nT("<")>> \o (IF c[6] = 1 THEN <<nE(call)>> ELSE <<>>)
              \o (IF c[6] >= 5 THEN <<nE(eCall("g", <<>>))>> ELSE <<>>)
              \o <<nT("|"), block, nT(">")>> \o DefF(c, 2) \o DefG(c, 2)
      sub(l) == <<nDir(dExtends(nm(l + 1)), Over(c, l) \o DefF(c, l) \o DefG(c, l))>>
      skip == \/ c[6] = 3 /\ ~Bit(c[3] - 1, 1)
              \/ c[6] = 4 /\ ~Bit(c[3] - 1, 0)
  IN  IF skip THEN NoJob
      ELSE JobOf(IF text THEN <<TextTpl(nm(0), sub(0)), TextTpl(nm(1), sub(1)), TextTpl(nm(2), page)>>
                 ELSE <<Tpl(nm(0), sub(0)), Tpl(nm(1), sub(1)), Tpl(nm(2), <<nEl("html", page)>>)>>, <<>>, "id")
=============================================================================
