------------------------------ MODULE GenBase ------------------------------
(* Exhaustive families of jobs: a family gives the number of options of     *)
(* each of its dimensions (Dims) and how to build a job from one choice per *)
(* dimension (Build).  TLC runs the machine on every choice, checks its     *)
(* invariants and emits the job with its meaning, for replay on the code.   *)
EXTENDS Render, Json, IOUtils

CONSTANTS Dims, Build(_)

Part  == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
Deep  == IOEnv.VERIF_TIER # "quick"

-----------------------------------------------------------------------------
(* Constructors *)

No == [o |-> "no"]
eS(s) == [o |-> "str", s |-> s]
eI(i) == [o |-> "int", i |-> i]
eB(b) == [o |-> "bool", b |-> b]
eN    == [o |-> "none"]
eV(n) == [o |-> "var", n |-> n]
eL(a) == [o |-> "list", a |-> a]
eD(k, a, form) == [o |-> "dict", k |-> k, a |-> a, form |-> form]
eNot(x) == [o |-> "not", x |-> x]
eEq(l, r)  == [o |-> "eq", l |-> l, r |-> r]
eAdd(l, r) == [o |-> "add", l |-> l, r |-> r]
eLt(l, r)  == [o |-> "lt", l |-> l, r |-> r]
eLit(x) == [o |-> "lit", x |-> x]
eDef(n) == [o |-> "defd", n |-> n]
eCall(n, a) == [o |-> "call", n |-> n, a |-> a]
eKCall(n, a, kn, ka) == [o |-> "call", n |-> n, a |-> a, kn |-> kn, ka |-> ka]
eMCall(m, n, a) == [o |-> "mcall", m |-> m, n |-> n, a |-> a]
eErr == [o |-> "err", v |-> 0]
Caller == eV("%caller")

Where == [file |-> "", l1 |-> 0, l2 |-> 0]
nT(s) == Where @@ [op |-> "text", s |-> s]
nDollar == Where @@ [op |-> "dollar"]
nE(e) == Where @@ [op |-> "expr", e |-> e]
nComment(s) == Where @@ [op |-> "comment", s |-> s]
nCdata(kids) == Where @@ [op |-> "cdata", kids |-> kids]
nPy(n, e) == Where @@ [op |-> "py", n |-> n, e |-> e]
nModPy(n, e) == Where @@ [op |-> "modpy", n |-> n, e |-> e]
nInclude(tpl, alias) == Where @@ [op |-> "include", tpl |-> tpl, alias |-> alias]
nImport(tpl, alias, explicit) ==
  Where @@ [op |-> "import", tpl |-> tpl, alias |-> alias, explicit |-> explicit]

nEl(tag, kids) == Where @@ [op |-> "el", tag |-> tag, kids |-> kids, attrs |-> <<>>, dirs |-> <<>>,
                            strip |-> No, content |-> No, pyattrs |-> No, noauto |-> FALSE]
nDir(d, kids)  == [nEl("", kids) EXCEPT !.dirs = <<d>>]
nDirs(ds, tag, kids) == [nEl(tag, kids) EXCEPT !.dirs = ds]

dIf(e) == [d |-> "if", e |-> e]
dElse  == [d |-> "else"]
dFor(vs, e) == [d |-> "for", vs |-> vs, e |-> e]
dSwitch(e) == [d |-> "switch", e |-> e]
dCase(e) == [d |-> "case", e |-> e]
dWith(bs) == [d |-> "with", bs |-> bs]
bind(n, e) == [n |-> n, e |-> e]
dReplace(e) == [d |-> "replace", e |-> e]
dBlock(n) == [d |-> "block", n |-> n]
dExtends(t) == [d |-> "extends", tpl |-> t]
par(n) == [n |-> n, v |-> UNDEF]
parD(n, v) == [n |-> n, v |-> v]
parK(n, v) == [n |-> n, v |-> v, ko |-> TRUE]
dDef(n, ps) == [d |-> "def", n |-> n, ps |-> ps]
dCall(e, ps) == [d |-> "call", e |-> e, ps |-> ps]

aText(s) == [o |-> "text", s |-> s]
aExpr(e) == [o |-> "expr", e |-> e]
attrib(n, ps) == [n |-> n, ps |-> ps]

HtmlV(h, s) == [t |-> "html", h |-> h, s |-> s]
ObjV(s) == [t |-> "obj", s |-> s]
(* an object that is false *)
FalsyV(v, f) == [f |-> f] @@ v
ListV(l) == [t |-> "list", l |-> l]
LitV(s) == [t |-> "lit", s |-> s]
nv(n, v) == [n |-> n, v |-> v]

Tpl(name, root) ==
  [name |-> name, kind |-> "xml", mode |-> "", dtd |-> "", dtdkey |-> "", frag |-> FALSE,
   strip |-> FALSE, cdata |-> TRUE, esc |-> FALSE, auto |-> <<>>, globals |-> <<>>, root |-> root,
   ext |-> \E i \in DOMAIN root :
              root[i].op = "el" /\ \E k \in DOMAIN root[i].dirs : root[i].dirs[k].d = "extends"]
TextTpl(name, root) == [Tpl(name, root) EXCEPT !.kind = "text"]

(* Trees to a table of nodes *)
RECURSIVE FlatList(_, _), FlatOne(_, _)
FlatOne(t, nodes) ==
  LET me == Len(nodes) + 1
      n1 == Append(nodes, t)
  IN  IF t.op \in {"el", "cdata"}
      THEN LET k == FlatList(t.kids, n1) IN [nodes |-> [k.nodes EXCEPT ![me].kids = k.ids], id |-> me]
      ELSE [nodes |-> n1, id |-> me]
FlatList(ts, nodes) ==
  IF ts = <<>> THEN [nodes |-> nodes, ids |-> <<>>]
  ELSE LET r == FlatOne(Head(ts), nodes)
           s == FlatList(Tail(ts), r.nodes)
       IN  [nodes |-> s.nodes, ids |-> <<r.id>> \o s.ids]
RECURSIVE FlatTpls(_, _)
FlatTpls(ts, nodes) ==
  IF ts = <<>> THEN [nodes |-> nodes, tpls |-> <<>>]
  ELSE LET r == FlatList(Head(ts).root, nodes)
           s == FlatTpls(Tail(ts), r.nodes)
       IN  [nodes |-> s.nodes, tpls |-> <<[Head(ts) EXCEPT !.root = r.ids]>> \o s.tpls]

(* alphabetical order of the attribute names used by the families *)
Order == <<"a", "b", "checked", "class", "disabled", "href", "id", "selected", "title", "xml:lang", "z">>

JobOf(tpls, ctx, tr) ==
  LET f == FlatTpls(tpls, <<>>)
  IN  [tpls |-> f.tpls, nodes |-> f.nodes, ctx |-> ctx, tr |-> tr, main |-> 1, order |-> Order]

-----------------------------------------------------------------------------
GenJob(j) == j.b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Choices(_)
Choices(ds) == IF ds = <<>> THEN {<<>>}
               ELSE {<<x>> \o y : x \in 1..Head(ds), y \in Choices(Tail(ds))}

(* A family may leave out meaningless combinations: Build then gives NoJob  *)
NoJob == [tpls |-> <<>>]

ASSUME TLCSet(1, <<>>)

Init == \E c \in Choices(Dims) :
          /\ SumSeq(c) % Parts = Part
          /\ LET b == Build(c) IN b.tpls # <<>> /\ job = [c |-> c, b |-> b]
          /\ st = Start
Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<job, st>>

Emit ==
  Done => TLCSet(1, Append(TLCGet(1),
            [c |-> job.c, job |-> J, status |-> st.status, out |-> Result,
             pre |-> st.outs[Len(st.outs)], log |-> st.log, eid |-> st.eid, ex |-> st.ex]))
WriteAll == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
