------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The abstract machine a Kajiki template denotes.                         *)
(*                                                                         *)
(* A job is a set of templates (trees of text, expressions, elements with  *)
(* directives), a context and a translation catalogue.  The machine        *)
(* executes the job's main template one step at a time: each step handles  *)
(* the top frame of the control stack.  Its state is                       *)
(*                                                                         *)
(*   ctl     control stack, top first                                      *)
(*   outs    stack of output buffers (the second one and on collect        *)
(*           attribute values), top first                                  *)
(*   frames  activation records: local variables, lexical parent, the      *)
(*           template instance the code belongs to                         *)
(*   insts   template instances: context, imported names, own functions,   *)
(*           links to the extended and extending instances                 *)
(*   log     message ids handed to gettext, in order                       *)
(*   status  "run", "ok" or "err"; eid, ex: where an error was raised, which *)
(*   last    provenance of the last piece of output (for the invariants)   *)
(*                                                                         *)
(* Nothing here mirrors Kajiki's compiler: there is no generated code, no  *)
(* intermediate representation and no text level scanning.                 *)
(***************************************************************************)
EXTENDS Strings, FiniteSets, TLC

CONSTANT GetJob(_)
VARIABLES job, st

J == GetJob(job)
N(id) == J.nodes[id]
T(i) == J.tpls[i]

-----------------------------------------------------------------------------
(* Vocabulary of the output language *)

VoidTags  == {"area", "base", "br", "col", "hr", "img", "input", "link", "meta", "param"}
EmptyAttr == {"checked", "disabled", "readonly", "multiple", "selected",
              "nohref", "ismap", "declare", "defer"}
RawTags   == {"script", "style"}

(* Rendering mode: explicit, else the one of a known DOCTYPE, else XML *)
DtdMode(key) == CASE key \in {"html4transitional", "html4strict", "html4frameset"} -> "html"
                  [] key = "html5" -> "html5"
                  [] OTHER -> "xml"
Mode(t) == IF t.mode # "" THEN t.mode ELSE DtdMode(t.dtdkey)
IsHtml(t) == Mode(t) \in {"html", "html5"}
Doctype(t) == IF t.kind # "xml" \/ t.frag \/ t.ext THEN ""
              ELSE IF t.dtd # "" THEN Strip(t.dtd) \o "\n"
              ELSE IF Mode(t) = "html5" THEN "<!DOCTYPE html>\n" ELSE ""

-----------------------------------------------------------------------------
(* Values *)

Error(x) == [t |-> "err", x |-> x]     \* x: the Python exception, "" if any
ERR   == Error("")
NONE  == [t |-> "none"]
UNDEF == [t |-> "undef"]
BoolV(b) == [t |-> "bool", b |-> b]
StrV(s)  == [t |-> "str", s |-> s]
IntV(i)  == [t |-> "int", i |-> i]
IsErr(v) == v.t = "err"

EmptyFun == [x \in {} |-> UNDEF]
Map(pairs) == [n \in {pairs[i].n : i \in DOMAIN pairs} |->
                 pairs[CHOOSE i \in DOMAIN pairs : pairs[i].n = n].v]

Num(v) == IF v.t = "bool" THEN (IF v.b THEN 1 ELSE 0) ELSE v.i
IsNum(v) == v.t \in {"bool", "int"}

RECURSIVE Str(_)
Str(v) == CASE v.t = "str"  -> v.s
            [] v.t = "int"  -> ToString(v.i)
            [] v.t = "bool" -> IF v.b THEN "True" ELSE "False"
            [] v.t = "none" -> "None"
            [] v.t \in {"obj", "html", "lit"} -> v.s
            [] v.t = "list" -> "[" \o Join([i \in DOMAIN v.l |-> Str(v.l[i])], ", ") \o "]"

Truth(v) == CASE v.t = "str"  -> v.s # ""
              [] IsNum(v)     -> Num(v) # 0
              [] v.t = "none" -> FALSE
              [] v.t = "list" -> v.l # <<>>
              [] v.t = "dict" -> v.l # <<>>
              [] v.t \in {"obj", "html"} /\ "f" \in DOMAIN v -> v.f = "float"
              [] OTHER        -> TRUE

RECURSIVE Eq(_, _)
Eq(a, b) == CASE IsNum(a) /\ IsNum(b) -> Num(a) = Num(b)
              [] a.t = "str" /\ b.t = "str" -> a.s = b.s
              [] a.t = "none" /\ b.t = "none" -> TRUE
              [] a.t = "list" /\ b.t = "list" ->
                   /\ Len(a.l) = Len(b.l)
                   /\ \A i \in DOMAIN a.l : Eq(a.l[i], b.l[i])
              [] OTHER -> FALSE

Add(a, b) == CASE a.t = "str" /\ b.t = "str" -> StrV(a.s \o b.s)
               [] IsNum(a) /\ IsNum(b) -> IntV(Num(a) + Num(b))
               [] a.t = "list" /\ b.t = "list" -> [t |-> "list", l |-> a.l \o b.l]
               [] OTHER -> Error("TypeError")
Less(a, b) == IF IsNum(a) /\ IsNum(b) THEN BoolV(Num(a) < Num(b)) ELSE Error("TypeError")

-----------------------------------------------------------------------------
(* Static structure: directives of an element, by precedence (outermost     *)
(* first), and the functions and blocks of a template.                      *)

Precedence == <<"def", "call", "case", "else", "for", "if", "switch", "with",
                "replace", "block", "extends">>

RECURSIVE OrderFrom(_, _)
OrderFrom(ds, p) ==
  IF p > Len(Precedence) THEN <<>>
  ELSE LET hit == {i \in DOMAIN ds : ds[i].d = Precedence[p]}
       IN  (IF hit = {} THEN <<>> ELSE <<ds[CHOOSE i \in hit : TRUE]>>)
           \o OrderFrom(ds, p + 1)
Dirs(id) == LET n == N(id) IN
            IF n.op # "el" \/ n.dirs = <<>> THEN <<>>
            ELSE IF Len(n.dirs) = 1 THEN n.dirs
            ELSE OrderFrom(n.dirs, 1)

HasKids(n) == n.op \in {"el", "cdata"}
AutoBlock(t, n) == n.op = "el" /\ n.tag # "" /\ ~n.noauto
                   /\ \E i \in DOMAIN t.auto : t.auto[i] = n.tag

(* Template level functions: every def that is not inside another def, and  *)
(* every block.  <<key, node, directive index (0: only the children)>>      *)
RECURSIVE FunsOf(_, _), FunsOfAll(_, _, _)
FunsOf(ti, id) ==
  LET n == N(id)
      ds == Dirs(id)
      isdef == ds # <<>> /\ ds[1].d = "def"
      hit == {i \in DOMAIN ds : ds[i].d = "block"}
      replaced == \E i \in DOMAIN ds : ds[i].d = "replace"
  IN  (IF isdef THEN << <<"f:" \o ds[1].n, id, 1>> >> ELSE <<>>)
      \o (IF hit = {} THEN <<>>
          ELSE LET i == CHOOSE i \in hit : TRUE IN << <<"b:" \o ds[i].n, id, i>> >>)
      \o (IF AutoBlock(T(ti), n) THEN << <<"b:" \o n.tag, id, 0>> >> ELSE <<>>)
      \o (IF isdef \/ replaced \/ ~HasKids(n) THEN <<>> ELSE FunsOfAll(ti, n.kids, 1))
FunsOfAll(ti, ids, i) ==
  IF i > Len(ids) THEN <<>> ELSE FunsOf(ti, ids[i]) \o FunsOfAll(ti, ids, i + 1)

FunTable(ti, inst) ==
  LET fs == FunsOfAll(ti, T(ti).root, 1)
  IN  [key \in {fs[i][1] : i \in DOMAIN fs} |->
         LET x == fs[CHOOSE i \in DOMAIN fs : fs[i][1] = key]
             def == x[3] > 0 /\ Dirs(x[2])[x[3]].d = "def"
         IN  [t |-> "fn", inst |-> inst, id |-> x[2], d |-> x[3], up |-> 0,
              ps |-> IF def THEN Dirs(x[2])[x[3]].ps ELSE <<>>,
              ind |-> def, key |-> key]]

-----------------------------------------------------------------------------
(* Name resolution *)

RECURSIVE SelfOf(_, _)
SelfOf(S, i) == IF S.insts[i].down = 0 THEN i ELSE SelfOf(S, S.insts[i].down)

(* attribute of an instance: its own function or the nearest ancestor's *)
RECURSIVE AttrOf(_, _, _)
AttrOf(S, i, key) ==
  IF i = 0 THEN UNDEF
  ELSE IF key \in DOMAIN S.insts[i].funs THEN S.insts[i].funs[key]
  ELSE AttrOf(S, S.insts[i].up, key)

(* a bare name denotes the most derived definition *)
Bare(S, i, key) == AttrOf(S, SelfOf(S, i), key)

RECURSIVE ChainKeys(_, _)
ChainKeys(S, i) == IF i = 0 THEN {} ELSE DOMAIN S.insts[i].funs \cup ChainKeys(S, S.insts[i].up)

Global(S, i, n) ==
  LET fn == Bare(S, i, "f:" \o n)
  IN  IF fn.t # "undef" THEN fn
      ELSE IF n \in DOMAIN S.insts[i].base THEN S.insts[i].base[n]
      ELSE UNDEF

RECURSIVE Lookup(_, _, _)
Lookup(S, f, n) ==
  LET fr == S.frames[f]
  IN  IF n \in DOMAIN fr.vars /\ fr.vars[n].t # "undef" THEN fr.vars[n]
      ELSE IF fr.up # 0 THEN Lookup(S, fr.up, n)
      ELSE Global(S, fr.inst, n)

(* instance denoted by self/local/parent/child or an imported name *)
InstNamed(S, f, m) ==
  LET i == S.frames[f].inst
  IN  CASE m = "local"  -> i
        [] m = "self"   -> SelfOf(S, i)
        [] m = "parent" -> S.insts[i].up
        [] m = "child"  -> S.insts[i].down
        [] OTHER -> LET v == Lookup(S, f, m) IN IF v.t = "tpl" THEN v.inst ELSE 0

-----------------------------------------------------------------------------
(* Expressions.  Calling a template function yields a generator: its body   *)
(* runs when the result is output.                                          *)

(* Arguments by position, then by name (kw: pairs); parameters marked ko     *)
(* take an argument by name only.                                           *)
KwOnly(p) == "ko" \in DOMAIN p /\ p.ko
Bind(ps, args, kw) ==
  LET pos == SelectSeq(ps, LAMBDA p : ~KwOnly(p))
      given(n) == \E i \in DOMAIN pos : i <= Len(args) /\ pos[i].n = n
      named(n) == \E i \in DOMAIN kw : kw[i].n = n
  IN  IF \/ Len(args) > Len(pos)
         \/ \E i \in DOMAIN kw : given(kw[i].n) \/ ~\E k \in DOMAIN ps : ps[k].n = kw[i].n
         \/ \E i \in DOMAIN ps : ~given(ps[i].n) /\ ~named(ps[i].n) /\ ps[i].v.t = "undef"
      THEN [ok |-> FALSE, vars |-> EmptyFun]
      ELSE [ok |-> TRUE,
            vars |-> [n \in {ps[i].n : i \in DOMAIN ps} |->
                        IF given(n) THEN args[CHOOSE i \in DOMAIN pos : pos[i].n = n]
                        ELSE IF named(n) THEN kw[CHOOSE i \in DOMAIN kw : kw[i].n = n].v
                        ELSE ps[CHOOSE i \in DOMAIN ps : ps[i].n = n].v]]

Gen(S, fn, args, kw) ==
  IF fn.t = "undef" THEN Error("NameError") ELSE IF fn.t # "fn" THEN Error("TypeError")
  ELSE LET b == Bind(fn.ps, args, kw)
           blk == SubSeq(fn.key, 1, 2) = "b:"
           up == S.insts[fn.inst].up
           pb == IF blk /\ T(S.insts[fn.inst].tpl).ext THEN AttrOf(S, up, fn.key) ELSE UNDEF
       IN  IF ~b.ok THEN Error("TypeError")
           ELSE [t |-> "gen", id |-> fn.id, d |-> fn.d, up |-> fn.up, inst |-> fn.inst,
                 ind |-> fn.ind,
                 vars |-> IF pb.t = "undef" THEN b.vars
                          ELSE ("parent_block" :> pb) @@ b.vars]

(* The catalogue: the identity, or one that brackets every message (as a     *)
(* string or as an object), empties it or adds markup to it.                *)
Translate(m) == CASE J.tr \in {"brk", "lazy"} -> "[" \o m \o "]"
                  [] J.tr = "void" -> ""
                  [] J.tr = "mk" -> "<i>" \o m \o "&amp;\"</i>"
                  [] OTHER -> m

KwOf(e) == IF "ka" \in DOMAIN e THEN e.ka ELSE <<>>
Pairs(e, ks) == [i \in DOMAIN ks |-> [n |-> e.kn[i], v |-> ks[i]]]

NewFrame(S, fr) == [S EXCEPT !.frames = Append(S.frames, fr)]

RECURSIVE Eval(_, _, _), EvalAll(_, _, _, _)
EvalAll(S, f, es, i) == IF i > Len(es) THEN <<>>
                        ELSE <<Eval(S, f, es[i])>> \o EvalAll(S, f, es, i + 1)
AnyErr(vs) == \E i \in DOMAIN vs : IsErr(vs[i])
FirstErr(vs) == vs[CHOOSE i \in DOMAIN vs : IsErr(vs[i]) /\ \A k \in 1 .. i - 1 : ~IsErr(vs[k])]

(* the errors expressions raise on purpose (see ERRS in kv/lang.py) *)
ErrKinds == <<"ZeroDivisionError", "NameError", "KeyError", "AttributeError", "IndexError", "ValueError">>

Eval(S, f, e) ==
  CASE e.o = "str"  -> StrV(e.s)
    [] e.o = "int"  -> IntV(e.i)
    [] e.o = "bool" -> BoolV(e.b)
    [] e.o = "none" -> NONE
    [] e.o = "err"  -> Error(ErrKinds[1 + (IF "v" \in DOMAIN e THEN e.v ELSE 0)])
    [] e.o = "var"  -> LET v == Lookup(S, f, e.n) IN IF v.t = "undef" THEN Error("NameError") ELSE v
    [] e.o = "list" -> LET vs == EvalAll(S, f, e.a, 1)
                       IN  IF AnyErr(vs) THEN FirstErr(vs) ELSE [t |-> "list", l |-> vs]
    [] e.o = "dict" -> LET vs == EvalAll(S, f, e.a, 1)
                       IN  IF AnyErr(vs) THEN FirstErr(vs) ELSE [t |-> "dict", k |-> e.k, l |-> vs]
    [] e.o = "not"  -> LET v == Eval(S, f, e.x) IN IF IsErr(v) THEN v ELSE BoolV(~Truth(v))
    [] e.o = "and"  -> LET v == Eval(S, f, e.l)
                       IN  IF IsErr(v) THEN v ELSE IF Truth(v) THEN Eval(S, f, e.r) ELSE v
    [] e.o = "or"   -> LET v == Eval(S, f, e.l)
                       IN  IF IsErr(v) THEN v ELSE IF Truth(v) THEN v ELSE Eval(S, f, e.r)
    [] e.o = "cond" -> LET v == Eval(S, f, e.c)
                       IN  IF IsErr(v) THEN v
                           ELSE IF Truth(v) THEN Eval(S, f, e.l) ELSE Eval(S, f, e.r)
    [] e.o \in {"eq", "add", "lt"} ->
         LET a == Eval(S, f, e.l)
             b == Eval(S, f, e.r)
         IN  IF IsErr(a) THEN a ELSE IF IsErr(b) THEN b
             ELSE IF e.o = "eq" THEN BoolV(Eq(a, b))
             ELSE IF e.o = "add" THEN Add(a, b)
             ELSE Less(a, b)
    [] e.o = "lit"  -> LET v == Eval(S, f, e.x)
                       IN  IF IsErr(v) THEN v
                           ELSE IF v.t = "none" THEN [t |-> "lit", s |-> ""]
                           ELSE [t |-> "lit", s |-> Str(v)]
    [] e.o = "tr"   -> StrV(Translate(e.s))
    [] e.o = "defd" -> BoolV(Global(S, S.frames[f].inst, e.n).t # "undef")
    [] e.o = "call" -> LET fn == Lookup(S, f, e.n)
                           vs == EvalAll(S, f, e.a, 1)
                           ks == EvalAll(S, f, KwOf(e), 1)
                       IN  IF fn.t = "undef" THEN Error("NameError")
                           ELSE IF AnyErr(vs \o ks) THEN FirstErr(vs \o ks)
                           ELSE IF fn.t = "pyfn" /\ ks = <<>> /\ Len(vs) = Len(fn.ps)
                           THEN Eval(NewFrame(S, [vars |-> [n \in {fn.ps[i] : i \in DOMAIN fn.ps} |->
                                                              vs[CHOOSE i \in DOMAIN vs : fn.ps[i] = n]],
                                                  up |-> fn.up, inst |-> fn.inst, ind |-> TRUE]),
                                     Len(S.frames) + 1, fn.e)
                           ELSE Gen(S, fn, vs, Pairs(e, ks))
    [] e.o = "lam"  -> [t |-> "pyfn", ps |-> e.ps, e |-> e.x, up |-> f, inst |-> S.frames[f].inst]
    [] e.o = "vof"  -> LET v == Global(S, S.frames[f].inst, e.n)
                           x == Eval(S, f, e.x)
                       IN  IF IsErr(x) \/ v.t = "undef" THEN x ELSE v
    [] e.o = "mcall" -> LET i == InstNamed(S, f, e.m)
                            vs == EvalAll(S, f, e.a, 1)
                            ks == EvalAll(S, f, KwOf(e), 1)
                            fn == AttrOf(S, i, "f:" \o e.n)
                        IN  IF fn.t # "fn" THEN ERR
                            ELSE IF AnyErr(vs \o ks) THEN FirstErr(vs \o ks)
                               ELSE Gen(S, fn, vs, Pairs(e, ks))

-----------------------------------------------------------------------------
(* Output *)

Put(S, kind, raw, s) ==
  [S EXCEPT !.outs = <<Head(S.outs) \o s>> \o Tail(S.outs),
            !.last = [k |-> kind, raw |-> raw, s |-> s]]
Static(S, s) == IF s = "" THEN S ELSE Put(S, "static", s, s)

Push(S, fr) == [S EXCEPT !.ctl = <<fr>> \o S.ctl]
Pop(S) == [S EXCEPT !.ctl = Tail(S.ctl)]
SetTop(S, fr) == [S EXCEPT !.ctl = <<fr>> \o Tail(S.ctl)]
Fail(S, id, v) == [S EXCEPT !.status = "err", !.eid = id, !.ex = v.x]

(* run the body of a function in a new activation record *)
Enter(S, g) ==
  LET S1 == NewFrame(S, [vars |-> g.vars, up |-> g.up, inst |-> g.inst, ind |-> g.ind])
      f  == Len(S1.frames)
  IN  IF g.d = 0
      THEN Push(S1, [k |-> "ids", ids |-> N(g.id).kids, i |-> 1, f |-> f, c |-> "no", par |-> ""])
      ELSE Push(S1, [k |-> "node", id |-> g.id, d |-> g.d + 1, f |-> f])

(* Interpolation: None is nothing, markup is verbatim, the rest is escaped  *)
(* (unless the template is plain text).                                     *)
Out(S, v, escaping) ==
  CASE v.t = "none" -> S
    [] v.t = "gen"  -> Enter(S, v)
    [] v.t = "lit"  -> Put(S, "markup", v.s, v.s)
    [] v.t = "html" -> IF escaping THEN Put(S, "markup", v.h, v.h) ELSE Put(S, "raw", v.s, v.s)
    [] OTHER        -> IF escaping THEN Put(S, "value", Str(v), Escape(Str(v)))
                       ELSE Put(S, "raw", Str(v), Str(v))

Show(S, f, e, escaping, id) ==
  LET v == Eval(S, f, e) IN IF IsErr(v) THEN Fail(S, id, v) ELSE Out(S, v, escaping)

TplOf(S, f) == T(S.insts[S.frames[f].inst].tpl)

Message(S, m) == Static([S EXCEPT !.log = Append(S.log, m)], Translate(m))

-----------------------------------------------------------------------------
(* Static text of XML templates.  A run of adjacent text and expressions is *)
(* one piece of character data; white space at its ends is never part of a  *)
(* message and is dropped by strip_text.                                    *)

Inline(id) == N(id).op \in {"text", "dollar", "expr"}

TextOf(n) == IF n.op = "dollar" THEN "$" ELSE n.s

(* its parts; msg: is the core a message? *)
TextParts(t, ids, i, par, incdata) ==
  LET s == TextOf(N(ids[i]))
      first == i = 1 \/ ~Inline(ids[i - 1])
      final == i = Len(ids) \/ ~Inline(ids[i + 1])
      alone == first /\ final /\ Blank(s)
      lead  == IF alone THEN s ELSE IF first THEN LeadOf(s) ELSE ""
      s1    == SubSeq(s, Len(lead) + 1, Len(s))
      trail == IF final THEN TrailOf(s1) ELSE ""
      core  == SubSeq(s1, 1, Len(s1) - Len(trail))
      raw   == incdata \/ (par \in RawTags /\ t.cdata)
  IN  [lead |-> lead, trail |-> trail,
       core |-> IF raw THEN core ELSE EscapeText(core),
       msg |-> ~(par \in RawTags \/ Blank(core))]

TextStep(S, t, ids, i, par, incdata) ==
  LET p == TextParts(t, ids, i, par, incdata)
      margin(x) == IF t.strip THEN "" ELSE x
      S1 == Static(S, margin(p.lead))
      S2 == IF p.msg THEN Message(S1, p.core) ELSE Static(S1, p.core)
  IN  Static(S2, margin(p.trail))

(* All the messages of a template, with the lines they are on: what can be  *)
(* extracted for translation.                                               *)
RECURSIVE MessagesOf(_, _, _)
MessagesOf(t, ids, par) ==
  UNION {LET n == N(ids[i]) IN
         IF n.op \in {"text", "dollar"}
         THEN LET p == TextParts(t, ids, i, par, par = "![CDATA[")
              IN  IF p.msg THEN {[m |-> p.core, l1 |-> n.l1, l2 |-> n.l2]} ELSE {}
         ELSE IF n.op = "cdata"
         THEN MessagesOf(t, n.kids, IF par \in RawTags THEN par ELSE "![CDATA[")
         ELSE IF n.op = "el" /\ n.content.o = "no" /\ ~\E k \in DOMAIN n.dirs : n.dirs[k].d = "replace"
         THEN MessagesOf(t, n.kids, n.tag)
         ELSE {} : i \in DOMAIN ids}

-----------------------------------------------------------------------------
(* Attributes *)

Rank(name) == CHOOSE i \in DOMAIN J.order : J.order[i] = name
RECURSIVE SortNames(_)
SortNames(names) ==
  IF names = {} THEN <<>>
  ELSE LET m == CHOOSE a \in names : \A b \in names : Rank(a) <= Rank(b)
       IN  <<m>> \o SortNames(names \ {m})

AttrText(t, name, text) ==
  IF IsHtml(t) /\ name \in EmptyAttr THEN " " \o name
  ELSE " " \o name \o "=\"" \o text \o "\""

AttrValue(t, name, v) ==
  LET flag == name \in EmptyAttr /\ IsNum(v) /\ Num(v) \in {0, 1}
  IN  IF v.t = "none" \/ (flag /\ Num(v) = 0) THEN ""
      ELSE IF flag THEN AttrText(t, name, name)
      ELSE IF v.t = "html" THEN AttrText(t, name, v.h)
      ELSE IF v.t = "lit" THEN AttrText(t, name, v.s)
      ELSE AttrText(t, name, Escape(Str(v)))

PyAttrs(t, v) ==
  IF v.t # "dict" THEN ""
  ELSE LET names == SortNames({v.k[i] : i \in DOMAIN v.k})
           val(n) == v.l[CHOOSE i \in DOMAIN v.k : v.k[i] = n]
       IN  Join([i \in DOMAIN names |-> AttrValue(t, names[i], val(names[i]))], "")

-----------------------------------------------------------------------------
(* Instances *)

NewInst(S, ti, ctx) ==
  [S EXCEPT !.insts = Append(S.insts,
     [tpl |-> ti, ctx |-> ctx, up |-> 0, down |-> 0,
      base |-> ctx @@ Map(T(ti).globals),   \* the context wins over <?py % ...
      funs |-> FunTable(ti, Len(S.insts) + 1)])]

TplNamed(name) == CHOOSE i \in DOMAIN J.tpls : J.tpls[i].name = name

(* py:include / py:import: the template sees the globals and functions of   *)
(* the importing one, but its own functions, self and local are its own.    *)
Import(S, f, name, alias) ==
  LET i    == S.frames[f].inst
      me   == SelfOf(S, i)
      keys == {key \in ChainKeys(S, me) : SubSeq(key, 1, 2) = "f:"}
      fns  == [n \in {SubSeq(key, 3, Len(key)) : key \in keys} |-> Bare(S, me, "f:" \o n)]
      S1   == NewInst(S, TplNamed(name), fns @@ S.insts[me].base)
      v    == [t |-> "tpl", inst |-> Len(S1.insts)]
  IN  [S1 EXCEPT !.insts[i].base = (alias :> v) @@ @,
                 !.insts[me].base = (alias :> v) @@ @]

(* py:extends: a new instance of the parent, linked to this one *)
Extend(S, f, name) ==
  LET i  == S.frames[f].inst
      S1 == NewInst(S, TplNamed(name), S.insts[i].ctx)
      j  == Len(S1.insts)
  IN  [S1 EXCEPT !.insts[i].up = j, !.insts[j].down = i]

-----------------------------------------------------------------------------
(* Steps.  Each operator takes the state and its top control frame.         *)

Ids(ids, f, par) == [k |-> "ids", ids |-> ids, i |-> 1, f |-> f, c |-> "no", par |-> par]
NodeFr(id, d, f) == [k |-> "node", id |-> id, d |-> d, f |-> f]
ElFr(id, ph, ai, f) == [k |-> "el", id |-> id, ph |-> ph, ai |-> ai, f |-> f]

LocalVar(S, f, n) == IF n \in DOMAIN S.frames[f].vars THEN S.frames[f].vars[n] ELSE UNDEF
SetVar(S, f, n, v) == [S EXCEPT !.frames[f].vars = (n :> v) @@ @]

(* main: doctype, then the root of the template *)
MainStep(S, fr) ==
  LET ti == S.insts[fr.i].tpl
      S1 == NewFrame(Pop(S), [vars |-> EmptyFun, up |-> 0, inst |-> fr.i, ind |-> FALSE])
  IN  Push(Static(S1, Doctype(T(ti))), Ids(T(ti).root, Len(S1.frames), ""))

(* Code blocks: assignments, conditionals, loops and functions of Python,   *)
(* run where they are written, in the scope of the function around them.    *)
RECURSIVE Exec(_, _, _, _, _), ExecLoop(_, _, _, _, _, _)
Exec(S, f, ss, i, id) ==
  IF i > Len(ss) \/ S.status = "err" THEN S
  ELSE
  LET x == ss[i]
      v == IF x.s = "pass" THEN NONE ELSE Eval(S, f, x.e)
      a == LocalVar(S, f, x.n)
      S1 == CASE x.s = "pass" -> S
              [] x.s # "pass" /\ IsErr(v) -> Fail(S, id, v)
              [] x.s = "set" /\ ~IsErr(v) -> SetVar(S, f, x.n, v)
              [] x.s = "aug" /\ ~IsErr(v) ->
                   IF a.t = "undef" THEN Fail(S, id, Error("NameError"))
                   ELSE LET b == Add(a, v) IN IF IsErr(b) THEN Fail(S, id, b) ELSE SetVar(S, f, x.n, b)
              [] x.s = "if" /\ ~IsErr(v) -> Exec(S, f, IF Truth(v) THEN x.a ELSE x.b, 1, id)
              [] x.s = "for" /\ ~IsErr(v) ->
                   IF v.t # "list" THEN Fail(S, id, Error("TypeError"))
                   ELSE ExecLoop(S, f, x, v.l, 1, id)
  IN  Exec(S1, f, ss, i + 1, id)
ExecLoop(S, f, x, l, i, id) ==
  IF i > Len(l) \/ S.status = "err" THEN S
  ELSE ExecLoop(Exec(SetVar(S, f, x.n, l[i]), f, x.a, 1, id), f, x, l, i + 1, id)

(* ids: a sequence of siblings *)
IdsStep(S, fr) ==
  IF fr.i > Len(fr.ids) THEN Pop(S)
  ELSE
  LET id == fr.ids[fr.i]
      n  == N(id)
      t  == TplOf(S, fr.f)
      S1 == SetTop(S, [fr EXCEPT !.i = @ + 1])
      cd == fr.par = "![CDATA["
  IN  CASE n.op \in {"text", "dollar"} ->
             IF t.kind = "text" THEN Static(S1, TextOf(n))
             ELSE TextStep(S1, t, fr.ids, fr.i, fr.par, cd)
        [] n.op = "expr" -> Show(S1, fr.f, n.e, t.kind = "xml" \/ t.esc, id)
        [] n.op = "comment" -> IF n.s # "" /\ SubSeq(n.s, 1, 1) = "!" THEN S1
                               ELSE Static(S1, "<!-- " \o n.s \o " -->")
        [] n.op = "cdata" ->
             LET marks == ~(fr.par \in RawTags /\ t.cdata)
                 S2 == IF marks THEN Static(S1, "<![CDATA[") ELSE S1
             IN  Push(IF marks THEN Push(S2, [k |-> "emit", s |-> "]]>"]) ELSE S2,
                      Ids(n.kids, fr.f, IF fr.par \in RawTags THEN fr.par ELSE "![CDATA["))
        [] n.op = "py" -> LET v == Eval(S1, fr.f, n.e)
                          IN  IF IsErr(v) THEN Fail(S1, id, v) ELSE SetVar(S1, fr.f, n.n, v)
        [] n.op = "code" -> Exec(S1, fr.f, n.ss, 1, id)
        [] n.op = "modpy" -> S1
        [] n.op = "import" -> Import(S1, fr.f, n.tpl, n.alias)
        [] n.op = "include" ->
             LET S2 == Import(S1, fr.f, n.tpl, n.alias)
             IN  Push(S2, [k |-> "main", i |-> Len(S2.insts)])
        [] n.op = "el" -> Push(S1, NodeFr(id, 1, fr.f))

(* with: bind sequentially, remember what the names meant *)
RECURSIVE BindAll(_, _, _, _, _)
BindAll(S, f, bs, i, id) ==
  IF i > Len(bs) \/ S.status = "err" THEN S
  ELSE LET v == Eval(S, f, bs[i].e)
       IN  IF IsErr(v) THEN Fail(S, id, v)
           ELSE BindAll(SetVar(S, f, bs[i].n, v), f, bs, i + 1, id)

(* node: the d-th directive of an element, or the element itself *)
NodeStep(S, fr) ==
  LET ds == Dirs(fr.id)
      n  == N(fr.id)
      f  == fr.f
      S0 == Pop(S)
      t  == TplOf(S, f)
      below == Head(S0.ctl)
      rest == NodeFr(fr.id, fr.d + 1, f)
  IN
  IF fr.d > Len(ds)
  THEN IF AutoBlock(t, n)
       THEN IF t.ext THEN S0
            ELSE Out(S0, Gen(S0, Bare(S0, S0.frames[f].inst, "b:" \o n.tag), <<>>, <<>>), TRUE)
       ELSE IF n.tag = "" THEN Push(S0, Ids(n.kids, f, ""))
       ELSE Push(S0, ElFr(fr.id, "open", 1, f))
  ELSE
  LET d == ds[fr.d] IN
  CASE d.d = "def" ->
         IF S.frames[f].ind
         THEN SetVar(S0, f, d.n, [t |-> "fn", inst |-> S.frames[f].inst, id |-> fr.id,
                                  d |-> fr.d, up |-> f, ps |-> d.ps, ind |-> TRUE,
                                  key |-> "f:" \o d.n])
         ELSE S0
    [] d.d = "call" ->
         LET body == [t |-> "fn", inst |-> S.frames[f].inst, id |-> fr.id, d |-> fr.d,
                      up |-> f, ps |-> d.ps, ind |-> S.frames[f].ind, key |-> "f:"]
             S1 == NewFrame(S0, [vars |-> ("%caller" :> body), up |-> f,
                                 inst |-> S.frames[f].inst, ind |-> FALSE])
             v == Eval(S1, Len(S1.frames), d.e)
         IN  IF IsErr(v) THEN Fail(S0, fr.id, v) ELSE Out(S1, v, TRUE)
    [] d.d = "for" ->
         LET v == Eval(S0, f, d.e)
         IN  IF IsErr(v) \/ v.t # "list" THEN Fail(S0, fr.id, IF IsErr(v) THEN v ELSE Error("TypeError"))
             ELSE Push(S0, [k |-> "for", id |-> fr.id, d |-> fr.d, f |-> f, l |-> v.l, vs |-> d.vs])
    [] d.d = "if" ->
         LET v == Eval(S0, f, d.e)
             note(b) == IF fr.d = 1 /\ below.k = "ids"
                        THEN SetTop(S0, [below EXCEPT !.c = b]) ELSE S0
         IN  IF IsErr(v) THEN Fail(S0, fr.id, v)
             ELSE IF Truth(v) THEN Push(note("yes"), rest)
             ELSE note("not")
    [] d.d = "else" ->
         IF below.k = "ids" /\ below.c = "not" THEN Push(S0, rest) ELSE S0
    [] d.d = "switch" ->
         LET v == Eval(S0, f, d.e)
         IN  IF IsErr(v) THEN Fail(S0, fr.id, v)
             ELSE Push(S0, [k |-> "switch", ids |-> n.kids, i |-> 1, v |-> v, f |-> f])
    [] d.d = "with" ->
         LET old == [x \in {d.bs[i].n : i \in DOMAIN d.bs} |-> LocalVar(S0, f, x)]
         IN  BindAll(Push(Push(S0, [k |-> "restore", f |-> f, old |-> old]), rest),
                     f, d.bs, 1, fr.id)
    [] d.d = "replace" -> Show(S0, f, d.e, TRUE, fr.id)
    [] d.d = "block" ->
         IF t.ext THEN S0
         ELSE Out(S0, Gen(S0, Bare(S0, S0.frames[f].inst, "b:" \o d.n), <<>>, <<>>), TRUE)
    [] d.d = "extends" ->
         LET S1 == Extend(S0, f, d.tpl)
         IN  Push(Push(S1, rest), [k |-> "main", i |-> Len(S1.insts)])

ForStep(S, fr) ==
  IF fr.l = <<>> THEN Pop(S)
  ELSE LET v  == Head(fr.l)
           S1 == SetTop(S, [fr EXCEPT !.l = Tail(@)])
           ok == Len(fr.vs) = 1 \/ (v.t = "list" /\ Len(v.l) = Len(fr.vs))
           RECURSIVE Unpack(_, _)
           Unpack(X, i) == IF i > Len(fr.vs) THEN X
                           ELSE Unpack(SetVar(X, fr.f, fr.vs[i], v.l[i]), i + 1)
           S2 == IF Len(fr.vs) = 1 THEN SetVar(S1, fr.f, fr.vs[1], v) ELSE Unpack(S1, 1)
       IN  IF ~ok THEN Fail(S1, fr.id, ERR) ELSE Push(S2, NodeFr(fr.id, fr.d + 1, fr.f))

(* switch: the first equal case, else the default; white space is ignored *)
SwitchStep(S, fr) ==
  IF fr.i > Len(fr.ids) THEN Pop(S)
  ELSE
  LET id == fr.ids[fr.i]
      ds == Dirs(id)
      S1 == SetTop(S, [fr EXCEPT !.i = @ + 1])
  IN  IF ds = <<>> THEN S1
      ELSE IF ds[1].d = "case"
      THEN LET v == Eval(S, fr.f, ds[1].e)
           IN  IF IsErr(v) THEN Fail(S, id, v)
               ELSE IF Eq(v, fr.v) THEN Push(Pop(S), NodeFr(id, 2, fr.f)) ELSE S1
      ELSE IF ds[1].d = "else" THEN Push(Pop(S), NodeFr(id, 2, fr.f))
      ELSE S1

RestoreStep(S, fr) ==
  [Pop(S) EXCEPT !.frames[fr.f].vars = fr.old @@ @]

(* el: start tag, attributes, content, end tag.  py:strip removes the tags  *)
(* but not the content.                                                     *)
ElStep(S, fr) ==
  LET n  == N(fr.id)
      f  == fr.f
      t  == TplOf(S, f)
      tag == n.tag
      g  == IF n.strip.o = "no" THEN BoolV(FALSE) ELSE Eval(S, f, n.strip)
      stripped == Truth(g)
      Tag(X, s) == IF stripped THEN X ELSE Static(X, s)
      Goto(ph) == SetTop(S, [fr EXCEPT !.ph = ph])
      names == SortNames({n.attrs[i].n : i \in DOMAIN n.attrs})
      rawtag == tag \in RawTags /\ t.cdata
      attr == n.attrs[CHOOSE i \in DOMAIN n.attrs : n.attrs[i].n = names[fr.ai]]
  IN
  IF IsErr(g) THEN Fail(S, fr.id, g)
  ELSE
  CASE fr.ph = "open" -> Tag(Goto("attrs"), "<" \o tag)
    [] fr.ph = "attrs" ->
         IF fr.ai > Len(names) THEN Goto("pyattrs")
         ELSE LET S1 == SetTop(S, [fr EXCEPT !.ai = @ + 1])
              IN  IF stripped THEN S1
                  ELSE [Push(S1, [k |-> "attr", id |-> fr.id, name |-> attr.n, ps |-> attr.ps,
                                  i |-> 1, any |-> attr.ps = <<>>, f |-> f])
                        EXCEPT !.outs = <<"">> \o @]
    [] fr.ph = "pyattrs" ->
         IF n.pyattrs.o = "no" \/ stripped THEN Goto("body")
         ELSE LET v == Eval(S, f, n.pyattrs)
              IN  IF IsErr(v) THEN Fail(S, fr.id, v) ELSE Static(Goto("body"), PyAttrs(t, v))
    [] fr.ph = "body" ->
         IF n.content.o # "no"
         THEN LET S1 == Tag(Goto("end"), ">") IN Show(S1, f, n.content, TRUE, fr.id)
         ELSE IF n.kids # <<>>
         THEN LET S1 == Tag(Goto(IF IsHtml(t) /\ tag \in VoidTags THEN "void" ELSE "end"), ">")
                  S2 == IF rawtag /\ Mode(t) = "xml" THEN Static(S1, "/*<![CDATA[*/") ELSE S1
              IN  Push(S2, Ids(n.kids, f, tag))
         ELSE Pop(Tag(S, IF IsHtml(t)
                         THEN (IF tag \in VoidTags THEN ">" ELSE "></" \o tag \o ">")
                         ELSE (IF tag = "script" THEN "></script>" ELSE "/>")))
    [] fr.ph = "void" -> Pop(S)
    [] fr.ph = "end" ->
         LET close == rawtag /\ Mode(t) = "xml" /\ n.content.o = "no"
             S1 == IF close THEN Static(S, "/*]]>*/") ELSE S
         IN  Pop(Tag(S1, "</" \o tag \o ">"))

(* attr: collect the parts, then write the attribute unless all were None *)
AttrStep(S, fr) ==
  IF fr.i > Len(fr.ps)
  THEN LET S1 == [Pop(S) EXCEPT !.outs = Tail(@)]
       IN  IF fr.any
           THEN Static(S1, AttrText(TplOf(S, fr.f), fr.name, Escape(Head(S.outs))))
           ELSE S1
  ELSE LET p == fr.ps[fr.i]
           More(any) == SetTop(S, [fr EXCEPT !.i = @ + 1, !.any = @ \/ any])
       IN  IF p.o = "text" THEN Put(More(TRUE), "raw", p.s, p.s)
           ELSE LET v == Eval(S, fr.f, p.e)
                IN  IF IsErr(v) THEN Fail(S, fr.id, v)
                    ELSE Out(More(v.t # "none"), v, FALSE)

EmitStep(S, fr) == Static(Pop(S), fr.s)

Step(S) ==
  LET fr == Head(S.ctl)
  IN  CASE fr.k = "main"    -> MainStep(S, fr)
        [] fr.k = "ids"     -> IdsStep(S, fr)
        [] fr.k = "node"    -> NodeStep(S, fr)
        [] fr.k = "for"     -> ForStep(S, fr)
        [] fr.k = "switch"  -> SwitchStep(S, fr)
        [] fr.k = "restore" -> RestoreStep(S, fr)
        [] fr.k = "el"      -> ElStep(S, fr)
        [] fr.k = "attr"    -> AttrStep(S, fr)
        [] fr.k = "emit"    -> EmitStep(S, fr)

Start ==
  LET S0 == [ctl |-> <<>>, outs |-> <<"">>, frames |-> <<>>, insts |-> <<>>, log |-> <<>>,
             status |-> "run", eid |-> 0, ex |-> "", last |-> [k |-> "static", raw |-> "", s |-> ""]]
      S1 == NewInst(S0, J.main, Map(J.ctx))
  IN  Push(S1, [k |-> "main", i |-> 1])

Running == st.status = "run" /\ st.ctl # <<>>
Advance == Running /\ st' = Step(st) /\ UNCHANGED job
Finish  == st.status = "run" /\ st.ctl = <<>> /\ st' = [st EXCEPT !.status = "ok"] /\ UNCHANGED job

Done   == st.status \in {"ok", "err"}
Result == Head(st.outs)

-----------------------------------------------------------------------------
(* Invariants of the machine: the guarantees in their abstract form.        *)

(* C01/C02: a plain value never contributes a markup character, and what it *)
(* contributed reads back as exactly the value.                             *)
EscapeSafe == st.last.k = "value" =>
                /\ ~HasChar(st.last.s, {"<", ">", "\""})
                /\ Unescape(st.last.s) = st.last.raw

(* Attribute values are collected in their own buffers, properly nested.    *)
BufferDiscipline ==
  Len(st.outs) = 1 + Cardinality({i \in DOMAIN st.ctl : st.ctl[i].k = "attr"})

(* C06: when no with is pending in an activation, no name bound only by a   *)
(* with is visible in it -- each pending restore sits above its activation. *)
WithDiscipline ==
  \A i \in DOMAIN st.ctl :
    st.ctl[i].k = "restore" => st.ctl[i].f \in DOMAIN st.frames

(* C08: extension links are symmetric and acyclic.                          *)
ChainShape ==
  \A i \in DOMAIN st.insts :
    LET x == st.insts[i] IN
    /\ x.up # 0 => (x.up > i /\ st.insts[x.up].down = i)
    /\ x.down # 0 => (x.down < i /\ st.insts[x.down].up = i)

(* a finished run leaves nothing behind *)
CleanEnd == st.status = "ok" => (st.ctl = <<>> /\ Len(st.outs) = 1)

MachineInv == EscapeSafe /\ BufferDiscipline /\ WithDiscipline /\ ChainShape /\ CleanEnd
=============================================================================
