------------------------------- MODULE GenFun -------------------------------
(* C07: functions: parameters, bodies, and every place one can be called.   *)
EXTENDS GenBase

A == eV("a")
Sigs == << <<>>, <<par("a")>>, <<par("a"), parD("b", StrV("d&"))>>, <<parD("a", IntV(7))>>, <<par("c"), parD("a", NONE)>>,
          <<par("b"), parK("a", IntV(6))>>, <<parD("b", StrV("e")), parK("a", UNDEF)>>, <<par("a"), par("b"), parD("c", IntV(0))>> >>
(* arguments by name: none, or these *)
Kws == << <<>>, <<bind("a", eS("k<"))>>, <<bind("b", eI(4)), bind("a", eV("x"))>>, <<bind("zz", eI(1))>> >>
Args == << <<>>, <<eS("1<")>>, <<eS("1"), eV("x")>>, <<eN>>, <<eV("x"), eV("x"), eV("x")>> >>
Takes(i) == i = 5           \* the first parameter is a callable

(* bodies; those that read a need a signature that has it *)
Body(i) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> <<nT("t")>>
    [] i = 3 -> <<nT("["), nE(A), nT("]")>>
    [] i = 4 -> <<nEl("i", <<nE(A), nE(eV("x"))>>)>>
    [] i = 5 -> <<nDir(dDef("inn", <<par("q")>>), <<nE(A), nE(eV("q"))>>), nE(eCall("inn", <<A>>)), nE(eCall("inn", <<eI(3)>>))>>
    [] i = 6 -> <<nDir(dFor(<<"k">>, eL(<<eI(1), eI(2)>>)), <<nE(A), nE(eV("k"))>>)>>
    [] i = 7 -> <<nDir(dIf(eNot(A)), <<nT("empty")>>), nDir(dElse, <<nE(eCall("g", <<A>>))>>)>>
    [] i = 8 -> <<nDir(dWith(<<bind("a", eI(9))>>), <<nE(A), nE(eCall("g", <<A>>))>>), nE(A)>>
    [] i = 9 -> <<nPy("loc", A), nDir(dDef("inn", <<>>), <<nE(eV("loc")), nE(A)>>), nPy("loc", eI(5)), nE(eCall("inn", <<>>))>>
    [] i = 10 -> <<nDir(dCall(eCall("h", <<Caller>>), <<par("q")>>), <<nE(A), nE(eV("q"))>>)>>
    [] i = 11 -> <<nDir(dIf(A), <<nE(A), nT("("), nE(eKCall("f", <<>>, <<"a">>, <<eI(0)>>)), nT(")"), nE(A)>>), nDir(dElse, <<nT(".")>>)>>
Bodies == 11
ReadsA(i) == i >= 3

Site(i, call) ==
  CASE i = 1 -> <<nE(call)>>
    [] i = 2 -> <<nE(call), nT("-"), nE(call)>>
    [] i = 3 -> <<nDir(dReplace(call), <<>>)>>
    [] i = 4 -> <<[nEl("b", <<>>) EXCEPT !.content = call]>>
    [] i = 5 -> <<nDir(dFor(<<"n">>, eV("two")), <<nE(call)>>)>>
    [] i = 6 -> <<nDir(dDef("w", <<>>), <<nT("w:"), nE(call)>>), nE(eCall("w", <<>>))>>
    [] i = 7 -> <<nDir(dCall(eCall("h", <<Caller>>), <<par("q")>>), <<nE(eV("q")), nE(call)>>)>>
    [] i = 8 -> <<nDir(dWith(<<bind("r", call)>>), <<nT("r="), nE(eV("r"))>>)>>
    [] i = 9 -> <<nDir(dCall(eCall("hh", <<Caller, eV("x"), Caller>>), <<par("q")>>), <<nE(eV("q")), nE(call)>>)>>
    [] i = 10 -> <<nDir(dCall(eCall("h", <<Caller>>), <<par("q")>>),
                     <<nT("q"), nDir(dCall(eCall("h", <<Caller>>), <<par("p")>>), <<nE(eV("p")), nE(eV("q"))>>), nE(call)>>)>>
Sites == 10

CallOf(c) == LET kw == Kws[c[6]]
             IN  eKCall("f", IF Takes(c[1]) THEN <<eV("g")>> \o Args[c[2]] ELSE Args[c[2]],
                        [i \in DOMAIN kw |-> kw[i].n], [i \in DOMAIN kw |-> kw[i].e])
HasA(i) == \E k \in DOMAIN Sigs[i] : Sigs[i][k].n = "a"

MyDims == <<Len(Sigs), Len(Args), Bodies, Sites, 2, Len(Kws)>>
Defs(c) ==
  <<nDir(dDef("f", Sigs[c[1]]), Body(c[3]) \o (IF Takes(c[1]) THEN <<nE(eCall("c", <<eI(8)>>))>> ELSE <<>>)),
    nDir(dDef("g", <<par("z")>>), <<nT("g"), nE(eV("z"))>>),
    nDir(dDef("h", <<par("cb")>>), <<nT("{"), nE(eCall("cb", <<eS("1&")>>)), nE(eCall("cb", <<eI(2)>>)), nT("}")>>)>>
  \o (IF c[4] = 9 THEN <<nDir(dDef("hh", <<par("c1"), par("s"), par("c2")>>),
                         <<nE(eCall("c1", <<eV("s")>>)), nT("&"), nE(eCall("c2", <<eI(2)>>))>>)>> ELSE <<>>)
Skip(c) == \/ ReadsA(c[3]) /\ ~HasA(c[1])
           \/ c[2] > 3 /\ c[6] > 1
           \/ ~Deep /\ (c[1] > 5 \/ c[6] > 1 \/ c[4] > 8) /\ ~(c[3] \in {3, 5, 10, 11} /\ c[4] \in {1, 6, 7, 9, 10})
           \/ (c[5] = 2 /\ (c[3] \in {4, 8} \/ c[4] \in {3, 4, 8}))
MyBuild(c) ==
  LET ds == Defs(c)
      site == Site(c[4], CallOf(c))
      ctx == <<nv("x", StrV("<x>")), nv("two", ListV(<<IntV(1), IntV(2)>>))>>
  IN  IF Skip(c) THEN NoJob
      ELSE IF c[5] = 1 THEN JobOf(<<Tpl("t.html", <<nEl("p", <<nT("(")>> \o site \o <<nT(")")>> \o ds)>>)>>, ctx, "id")
      ELSE JobOf(<<TextTpl("t.txt", ds \o <<nT("(")>> \o site \o <<nT(")")>>)>>, ctx, "id")
=============================================================================
