------------------------------ MODULE GenName ------------------------------
(* C22: what a name means: every way of binding it (module level code,      *)
(* context, and each construct that binds a variable) against every place   *)
(* that reads it, in pages, libraries and chains.                           *)
EXTENDS GenBase

Names == <<"n", "id", "max">>             \* two of them are also built in
Ctxs == << <<>>, <<StrV("C")>>, <<StrV("")>>, <<NONE>> >>

Reads == 13
Read(i, v, n) ==
  CASE i = 1 -> <<nE(v)>>
    [] i = 2 -> <<[nEl("i", <<>>) EXCEPT !.attrs = <<attrib("a", <<aText("-"), aExpr(v)>>)>>]>>
    [] i = 3 -> <<nDir(dIf(eEq(v, eS("C"))), <<nT("is")>>), nDir(dElse, <<nT("not")>>)>>
    [] i = 4 -> <<[nEl("i", <<>>) EXCEPT !.content = v]>>
    [] i = 5 -> <<nDir(dReplace(v), <<>>)>>
    [] i = 6 -> <<nDir(dSwitch(v), <<nDir(dCase(eS("C")), <<nT("c")>>), nDir(dElse, <<nT("else")>>)>>)>>
    [] i = 7 -> <<nE(eDef(n))>>
    [] i = 8 -> <<nE([o |-> "vof", n |-> n, x |-> eS("dflt")])>>
    [] i = 9 -> <<nInclude("lib.html", "lib")>>
    [] i = 10 -> <<nImport("lib.html", "lib", FALSE), nE(eMCall("lib", "lf", <<eS("arg")>>))>>
    [] i = 11 -> <<[nEl("i", <<>>) EXCEPT !.pyattrs = eD(<<"a">>, <<v>>, 0)]>>
    [] i = 12 -> <<nDir(dFor(<<"k">>, eL(<<v, eS("!")>>)), <<nE(eV("k"))>>)>>
    [] i = 13 -> <<nE(eCall("idf", <<v>>))>>

Binds == 14
Fn(b) == b \in {5, 6, 7, 8, 9, 10, 11, 12, 14}
Local(b) == ~(b \in {1, 7, 11, 12})
XmlOnly(b, r) == b \in {3, 13} \/ r \in {2, 4, 5, 9, 10, 11}
Bound(b, n, kids) ==
  CASE b = 1 -> kids
    [] b = 2 -> <<nPy(n, eS("P"))>> \o kids
    [] b = 3 -> <<nDir(dWith(<<bind(n, eS("W"))>>), kids)>>
    [] b = 4 -> <<nDir(dFor(<<n>>, eL(<<eS("F1"), eS("C")>>)), kids)>>
    [] b = 5 -> <<nDir(dDef("f", <<par(n)>>), kids), nE(eCall("f", <<eS("A")>>))>>
    [] b = 6 -> <<nDir(dDef("f", <<parD(n, StrV("D"))>>), kids), nE(eCall("f", <<>>))>>
    [] b = 7 -> <<nDir(dDef("f", <<>>), kids), nE(eCall("f", <<>>))>>
    [] b = 8 -> <<nDir(dDef("g", <<par(n)>>), <<nDir(dDef("f", <<>>), kids), nE(eCall("f", <<>>))>>), nE(eCall("g", <<eS("G")>>))>>
    [] b = 9 -> <<nDir(dDef("g", <<par(n)>>), <<nDir(dDef("f", <<par(n)>>), kids), nE(eCall("f", <<eS("I")>>)), nE(eV(n))>>),
                  nE(eCall("g", <<eS("G")>>))>>
    [] b = 10 -> <<nDir(dDef("h", <<par("cb")>>), <<nE(eCall("cb", <<eS("B")>>))>>),
                   nDir(dCall(eCall("h", <<Caller>>), <<par(n)>>), kids)>>
    [] b = 11 -> <<nDir(dDef("h", <<par("cb")>>), <<nE(eCall("cb", <<eS("B")>>))>>),
                   nDir(dCall(eCall("h", <<Caller>>), <<par("q")>>), kids)>>
    [] b = 12 -> <<nDir(dBlock("bl"), kids)>>
    [] b = 13 -> <<nDir(dFor(<<n>>, eL(<<eS("F")>>)), <<nDir(dWith(<<bind(n, eAdd(eV(n), eS("W")))>>), kids), nE(eV(n))>>)>>
    [] b = 14 -> <<nDir(dDef("g", <<>>), <<nPy(n, eS("L")), nDir(dDef("f", <<>>), kids), nE(eCall("f", <<>>))>>), nE(eCall("g", <<>>))>>

(* roles of the template: a page, the block of a child, the base of one *)
MyDims == <<Len(Names), 2, Len(Ctxs), Binds, Reads, 2, 3>>
MyBuild(c) ==
  LET n == Names[c[1]]
      xml == c[6] = 1
      mod == c[2] = 2
      b == c[4]
      r == c[5]
      global == mod \/ c[3] > 1
      skip == \/ ~xml /\ (XmlOnly(b, r) \/ c[7] > 1)
              \/ r \in {7, 8} /\ Local(b)
              \/ c[7] = 2 /\ (Fn(b) \/ r = 13 \/ mod)
              \* unspecified: module level code of a base, in a library
              \/ c[7] = 3 /\ mod /\ r \in {9, 10}
              \* without a binding these are the functions of Python
              \/ c[1] > 1 /\ ~global /\ ~(Local(b) /\ ~Fn(b) /\ ~(r \in {9, 10}))
              \/ ~Deep /\ (c[1] = 3 \/ c[3] = 4) /\ (c[7] > 1 \/ ~xml)
      after == IF Fn(b) /\ r # 10 THEN <<nT("|")>> \o Read(r, eV(n), n) ELSE <<>>
      body == Bound(b, n, Read(r, eV(n), n)) \o after
              \o (IF r = 13 THEN <<nDir(dDef("idf", <<par("q")>>), <<nE(eV("q"))>>)>> ELSE <<>>)
      m == IF mod THEN <<nModPy(n, eS("M"))>> ELSE <<>>
      gl == IF mod THEN <<nv(n, StrV("M"))>> ELSE <<>>
      ctx == IF c[3] = 1 THEN <<>> ELSE <<nv(n, Ctxs[c[3]][1])>>
      lib == Tpl("lib.html", <<nEl("u", <<nT("u"), nE(eV(n)), nDir(dDef("lf", <<par("q")>>), <<nE(eV("q")), nE(eV(n))>>)>>)>>)
      libs == IF r \in {9, 10} THEN <<lib>> ELSE <<>>
      page == [Tpl("t.html", <<nEl("p", m \o body)>>) EXCEPT !.globals = gl]
  IN  IF skip THEN NoJob
      ELSE IF ~xml THEN JobOf(<<[TextTpl("t.txt", m \o body) EXCEPT !.globals = gl]>>, ctx, "id")
      ELSE IF c[7] = 1 THEN JobOf(<<page>> \o libs, ctx, "id")
      ELSE IF c[7] = 2
      THEN JobOf(<<Tpl("c.html", <<nDir(dExtends("b.html"), <<nDir(dBlock("main"), body)>>)>>),
                   Tpl("b.html", <<nEl("p", <<nDir(dBlock("main"), <<>>)>>)>>)>> \o libs, ctx, "id")
      ELSE JobOf(<<Tpl("c.html", <<nDir(dExtends("t.html"), <<nDir(dDef("zz", <<>>), <<>>)>>)>>), page>> \o libs, ctx, "id")
=============================================================================
