"""Random jobs, within the specified part of the template language.

A generator keeps track of what is in scope (names and types), so that what
it writes has a defined meaning: errors occur only where it puts one.
"""
import random

from .lang import *

SPECIAL = ['<', '>', '&', '"', "'", '&amp;', '<b>', ']]', '&lt;', '%', u'\xe9', u'\u20ac', '{', '}', '$', '\\', '/>', ';b=', '=']
WORDS = ['a', 'b', 'xy', 'foo', 'Bar', '1', '.', ',', '-', '_', ';', ':', '#', '(', ')', 'x y', u'\xfc', u'\u2014', u'\xa9']
BLANKS = [' ', '\n', '  ', '\n  ', '\t', '\n\n', ' ']
NAMES = ['u', 'v', 'w', 'x', 'y', 'z', 'aa', 'b1', 'item', 'data']
TAGS = ['p', 'div', 'span', 'b', 'ul', 'li', 'h1', 'p', 'div', 'span', 'a', 'td', 'textarea', 'title', 'pre', 'my-tag',
        'svg:g', 'DIV', 'x.y', '_t', 'noscript', 'Py', 'svg:text', 'x:if', 'svg:switch', 'select', 'body', 'head', 'i']
VOID = ['area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param']
ATTRS = ['a', 'b', 'class', 'id', 'title', 'data-x', 'href', 'xml:lang', 'z', 'onclick', 'x_y', 'v-on:click', 'A', 'value']
# what a sequence, and a mapping, can be
FORMS = ['list', 'list', 'tuple', 'object']
FLAGS = ['checked', 'disabled', 'readonly', 'multiple', 'selected', 'nohref', 'ismap', 'declare', 'defer']

W = dict(text=5, dollar=.4, expr=4, el=4, comment=.4, cdata=.4, py=.4, code=.3, if_=1.5, for_=1.2,
         switch=.7, with_=.8, call=0, nop=.3, localdef=0, calldir=0, include=0, import_=0,
         script=0, err=0, tr=.1, combo=.6, replace=.3, void=.5, block=0)


class Fn(object):
    def __init__(self, name, params, order, tpl=None):
        self.name, self.params, self.order, self.tpl = name, params, order, tpl


class Scope(object):
    """What can be referred to: variables with their types, functions."""

    def __init__(self, vars=(), fns=(), parent=None):
        self.vars = dict(vars)      # readable names
        self.local = {}             # names assigned in the current function
        self.fns = list(fns)
        self.pyfns = []             # functions of code blocks
        self.infn = False
        self.banned = set()

    def child(self):
        s = Scope(self.vars, self.fns)
        s.local = dict(self.local)
        s.infn = self.infn
        s.banned = self.banned
        s.pyfns = self.pyfns
        return s

    def function(self, params):
        s = Scope(self.vars, self.fns)
        s.pyfns = self.pyfns
        for n, t in params:
            s.vars[n] = t
            s.local[n] = t
        s.infn = True
        s.banned = set(self.vars) | set(self.banned)
        return s

    def bind(self, n, t):
        self.vars[n] = t
        self.local[n] = t


class Gen(object):
    def __init__(self, rng, kind='xml', weights=None, **opt):
        self.rng = rng
        self.kind = kind
        self.w = dict(W)
        self.w.update(weights or {})
        self.opt = dict(special=.3, attrs=.4, pyattrs=.1, strip=.08, content=.1, flags=.15,
                        depth=4, width=4, empty=.1, dirs=.25, html=.1, none=.1, elses=.5,
                        edgews=.3, shadow=.2, lits=.08, attrcalls=.15, long=.004, recursion=.2, builtins=.05, undefined=0,
                        lookups=.05)
        self.opt.update(opt)
        self.n = 0
        self.budget = 60
        self.tops = []       # functions of the template
        if kind == 'text':
            for k in ('el', 'comment', 'cdata', 'with_', 'script', 'combo', 'replace', 'void'):
                self.w[k] = 0

    # -- helpers -----------------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def name(self, sc, t):
        """A name that can be assigned in the current function."""
        if sc.local and self.chance(self.opt['shadow']):
            same = [n for n, ty in sc.local.items() if ty == t]
            if same:
                return self.rng.choice(sorted(same))
        self.n += 1
        return '%s%d' % (self.rng.choice(['i', 'k', 'n', 'tmp']), self.n)

    # -- strings -----------------------------------------------------------
    def raw(self, n=4, blanks=True):
        out = []
        for _ in range(self.rng.randint(1, n)):
            r = self.rng.random()
            if r < self.opt['special']:
                out.append(self.rng.choice(SPECIAL))
            elif blanks and r < self.opt['special'] + .2:
                out.append(self.rng.choice(BLANKS))
            else:
                out.append(self.rng.choice(WORDS))
        if self.chance(self.opt['long']):
            return (''.join(out) * 200)[:self.rng.choice([130, 260, 300, 520])]
        return ''.join(out)

    def static(self):
        s = self.raw(5)
        if self.chance(self.opt['edgews']):
            s = self.rng.choice(BLANKS) + s
        if self.chance(self.opt['edgews']):
            s = s + self.rng.choice(BLANKS)
        if self.chance(.08):
            s = self.rng.choice(BLANKS)
        s = s.replace('$', '')
        if self.kind == 'text':
            s = s.replace('%', '').replace('{', '(').replace('}', ')')
        return s or 'z'

    # -- values and expressions --------------------------------------------
    def value(self, t):
        r = self.rng
        if t == 'str':
            return vs(self.raw(3) if self.chance(.9) else '')
        if t == 'int':
            return vi(r.choice([0, 1, 2, 3, -1, 10, 255]))
        if t == 'nat':
            return vi(r.choice([0, 1, 2]))
        if t == 'bool':
            return vb(self.chance(.5))
        if t == 'strs':
            return dict(vl(*[self.value('str') for _ in range(r.choice([0, 1, 2, 3]) if self.chance(.98) else 25)]), f=r.choice(FORMS))
        if t == 'pairs':
            return dict(vl(*[vl(self.value('str'), self.value('int')) for _ in range(r.choice([0, 1, 2]))]),
                        f=r.choice(FORMS))
        if t == 'dict':
            ks = r.sample(ATTRS + FLAGS[:4], r.choice([0, 1, 2, 3]))
            return {'t': 'dict', 'k': ks, 'l': [self.value('any') for _ in ks],
                    'f': r.choice(['dict', 'mapping', 'pairs', 'tuples'])}
        if t == 'any':
            k = self.rng.random()
            if k < self.opt['none']:
                return VNONE
            if k < self.opt['none'] + self.opt['html']:
                v = r.choice([vhtml(r.choice(['<i>m</i>', '&copy;', '<br/>', 'plain', ' <b> ', '\n']), self.raw(2)),
                              vobj(self.raw(2))])
                if self.chance(.2):
                    v['f'] = r.choice(['false', 'empty'])
                elif self.chance(.1):
                    v = dict(vobj(r.choice(['0.25', '1.5', '-2.0'])), f='float')
                return v
            return self.value(r.choice(['str', 'str', 'int', 'bool']))
        raise ValueError(t)

    def atom(self, sc, t):
        opts = [n for n, ty in sc.vars.items() if ty == t]
        if t == 'any':
            opts = [n for n, ty in sc.vars.items() if ty in ('any', 'str', 'int', 'bool')]
        if opts and self.chance(.75):
            return V(self.rng.choice(sorted(opts)))
        if t == 'any':
            t = self.rng.choice(['str', 'int', 'bool', 'none'])
            if t == 'none':
                return NONE if self.chance(.5) else self.atom(sc, 'str')
        return value_expr(self.value(t))

    def e(self, sc, t, depth=2):
        r = self.rng.random()
        if depth <= 0 or r < .5:
            return self.atom(sc, t)
        d = depth - 1
        if sc.pyfns and self.chance(.2):
            fs = [f for f in sc.pyfns if f[2] == t or t == 'any']
            if fs:
                f = self.rng.choice(fs)
                return Call(f[0], *[self.e(sc, ty, d) for ty in f[1]])
        if r < .58:
            return Cond(self.cond(sc, d), self.e(sc, t, d), self.e(sc, t, d))
        if t == 'str':
            return Bin('add', self.e(sc, 'str', d), self.e(sc, 'str', d))
        if t == 'int':
            return Bin('add', self.e(sc, 'int', d), self.e(sc, 'int', d))
        if t == 'bool' and self.chance(self.opt['lookups']):
            return Defd(self.rng.choice(NAMES + ['nope', 'a'] + 3 * self.tops))
        if t == 'bool':
            k = self.rng.choice(['not', 'and', 'or', 'eq', 'eq', 'lt', 'lt', 'seq', 'def'])
            if k == 'not':
                return Not(self.e(sc, self.rng.choice(['bool', 'str', 'int', 'strs']), d))
            if k in ('and', 'or'):
                return Bin(k, self.e(sc, 'bool', d), self.e(sc, 'bool', d))
            if k == 'eq':
                return Bin('eq', self.e(sc, 'int', d), self.e(sc, 'int', d))
            if k == 'seq':
                return Bin('eq', self.e(sc, 'str', d), self.e(sc, 'str', d))
            if k == 'def':
                return Defd(self.rng.choice(NAMES + ['nope', 'a'] + 3 * self.tops))
            return Bin('lt', self.e(sc, 'int', d), self.e(sc, 'int', d))
        if t == 'strs':
            return L(*[self.e(sc, 'str', d) for _ in range(self.rng.choice([0, 1, 2, 3]))])
        if t == 'any':
            if self.chance(self.opt['undefined']):
                return V(self.rng.choice(['nope', 'x1', 'Id', 'tmp']))
            if self.chance(self.opt['lookups']):
                n = self.rng.choice(['nope', 'a', 'x1'] + [n for n in NAMES if sc.vars.get(n) in ('str', 'int', 'any')])
                return Vof(n, self.e(sc, 'any', d))
            if self.chance(self.opt['lits']):
                return Lit(S(self.rng.choice(['<i>', '&amp;', 'ok', '</i>'])))
            return self.e(sc, self.rng.choice(['str', 'int', 'bool', 'any']), d)
        return self.atom(sc, t)

    def cond(self, sc, depth=2):
        """Something to test: any value is true or false."""
        if self.chance(.65):
            return self.e(sc, 'bool', depth)
        return self.e(sc, self.rng.choice(['str', 'int', 'strs', 'any', 'any']), min(depth, 1))

    def mixed(self, sc):
        """Values of several types that are, or only look, equal."""
        if self.chance(.15):
            return dict(L(*[I(self.rng.choice([0, 1])) for _ in range(self.rng.choice([0, 1, 2, 2]))]), form=2)
        if self.chance(.7):
            return value_expr(self.rng.choice([
                vi(1), vb(True), vs('1'), vi(0), vb(False), vs('0'), vs(''), VNONE, vs('None'), vs('True'), vi(2)]))
        return self.e(sc, self.rng.choice(['int', 'str', 'bool']), 1)

    def fncall(self, sc):
        if not sc.fns:
            return None
        f = self.rng.choice(sc.fns)
        return self.callfn(sc, f)

    def callfn(self, sc, f):
        if any(t == 'fn' for p, t, v in f.params):
            return None
        args, kw = self.arguments(sc, f.params)
        e = MCall(f.tpl, f.name, *args) if f.tpl else Call(f.name, *args)
        if kw:
            e['kn'] = [n for n, _ in kw]
            e['ka'] = [x for _, x in kw]
        return e

    def arguments(self, sc, params):
        args, kw = [], []
        byname = False
        for p, t, v in params:
            ko = p.startswith('ko')
            byname = byname or ko or self.chance(.15)
            if v is not None and self.chance(.4):
                byname = True
                continue
            if byname:
                kw.append((p, self.e(sc, t, 1)))
            else:
                args.append(self.e(sc, t, 1))
        self.rng.shuffle(kw)
        return args, kw

    # -- nodes -------------------------------------------------------------
    def nodes(self, sc, depth, par=''):
        """Children of an element: a list without adjacent text nodes."""
        out = []
        n = self.rng.randint(0 if self.chance(self.opt['empty']) else 1, self.opt['width'])
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            for x in self.some(sc, depth):
                if x['op'] == 'text' and out and out[-1]['op'] == 'text':
                    continue
                out.append(x)
        return out

    def some(self, sc, depth):
        kinds = [k for k in sorted(self.w) if self.w[k] > 0]
        if depth <= 0:
            kinds = [k for k in kinds if k in ('text', 'dollar', 'expr', 'comment', 'call', 'err', 'void', 'tr')]
        k = self.rng.choices(kinds, [self.w[x] for x in kinds])[0]
        return getattr(self, 'k_' + k.strip('_'))(sc, depth - 1)

    def k_text(self, sc, d):
        s = self.static()
        if self.kind == 'xml' and self.chance(.05):
            # (written as a character reference)
            s = s + '\r' if self.chance(.5) else '\r' + s
        return [text(s)]

    def k_dollar(self, sc, d):
        if self.kind == 'xml' and self.chance(.6):
            # a lone dollar is a part of the text around it
            return [text(self.static() + '$' + self.rng.choice([' ', '.', '&', '<', '; ', '>']) + self.static())]
        return [dollar()]

    def k_expr(self, sc, d):
        return [expr(self.e(sc, 'any'))]

    def k_tr(self, sc, d):
        return [expr(Tr('T:' + self.raw(2)))]

    def k_err(self, sc, d):
        return [expr(Err(self.rng.randrange(len(ERRS))))]

    def k_comment(self, sc, d):
        s = self.raw(3).replace('-', '').replace('$', '')
        if self.chance(.1):
            s += self.rng.choice(['<!DOCTYPE html>', '<?xml version="1.0"?>', '</p>'])
        if self.chance(.3):
            s = self.rng.choice(['!', '!', ' !', '\n!']) + s
        return [comment(s)]

    def protected(self, kids):
        """Text that does not end the CDATA section it is in, not even with a value before it."""
        s = self.static().replace(']', '')
        return text((s.lstrip('>') if kids else s) or 'z')

    def k_cdata(self, sc, d):
        kids = []
        for _ in range(self.rng.randint(1, 3)):
            x = self.protected(kids) if self.chance(.6) else self.k_expr(sc, d)[0]
            if x['op'] == 'text' and kids and kids[-1]['op'] == 'text':
                continue
            if x['op'] == 'text' and self.chance(.1):
                x['s'] += self.rng.choice(['<!DOCTYPE html>', '<!-- x -->', '</p>', '<?py x?>'])
            kids.append(x)
        return [cdata(*kids)]

    def assigned(self, sc, n, t):
        """A value to assign: values must not double in loops."""
        if n not in sc.local:
            return self.e(sc, t)
        s = Scope(dict((m, ty) for m, ty in sc.vars.items() if m not in sc.local), sc.fns)
        x = self.e(s, t)
        if t in ('str', 'int') and self.chance(.5):
            return Bin('add', V(n), value_expr(self.value(t)))
        return x

    def k_py(self, sc, d):
        t = self.rng.choice(['str', 'int', 'bool', 'strs'])
        n = self.name(sc, t)
        e = self.assigned(sc, n, t)
        sc.bind(n, t)
        return [pyset(n, e)]

    def k_code(self, sc, d):
        """A block of code."""
        return [code(*self.stmts(sc, 2, self.rng.randint(1, 4)))]

    def stmts(self, sc, d, n, sure=True):
        """Statements; without `sure` they bind no new name."""
        out = []
        for _ in range(n):
            k = self.rng.choice(['set', 'set', 'aug', 'if', 'for', 'lam'])
            t = self.rng.choice(['str', 'str', 'int', 'bool', 'strs'])
            if k == 'set':
                same = sorted(m for m, ty in sc.local.items() if ty == t)
                if sure:
                    m = self.name(sc, t)
                elif same:
                    m = self.rng.choice(same)
                else:
                    continue
                out.append(s_set(m, self.assigned(sc, m, t)))
                if sure:
                    sc.bind(m, t)
            elif k == 'aug':
                t = self.rng.choice(['str', 'int'])
                same = sorted(m for m, ty in sc.local.items() if ty == t)
                if same:
                    out.append(s_aug(self.rng.choice(same), value_expr(self.value(t))))
            elif k == 'lam' and sure:
                ps = [('la', 'str'), ('lb', 'int')][:self.rng.choice([0, 1, 2])]
                s = sc.child()
                for m, ty in ps:
                    s.vars[m] = ty
                rt = self.rng.choice(['str', 'int', 'bool'])
                x = self.e(s, rt)
                self.n += 1
                m = 'h%d' % self.n
                out.append(s_set(m, Lam([a for a, _ in ps], x)))
                sc.pyfns = sc.pyfns + [(m, [ty for _, ty in ps], rt)]
            elif k == 'if' and d > 0:
                out.append(s_if(self.cond(sc), self.stmts(sc, d - 1, self.rng.randint(0, 2), False),
                                self.stmts(sc, d - 1, self.rng.randint(0, 2), False)))
            elif k == 'for' and d > 0:
                e = self.e(sc, 'strs')
                self.n += 1
                m = 'lv%d' % self.n
                s = sc.child()
                s.vars[m] = 'str'
                out.append(s_for(m, e, self.stmts(s, d - 1, self.rng.randint(0, 2), False)))
        return out

    def body(self, sc, d):
        return self.nodes(sc.child(), d)

    def wrap(self, sc, d, kids, *dirs):
        """An element, or none, carrying directives."""
        if self.kind == 'xml' and self.chance(.5):
            x = self.element(sc, d, kids)
            x['dirs'] = list(dirs)
            return x
        return nop(kids, *dirs)

    def element(self, sc, d, kids=None, tag=None):
        tag = tag or self.rng.choice(TAGS)
        x = el(tag)
        x['kids'] = self.body(sc, d) if kids is None else kids
        self.decorate(x, sc)
        return x

    def decorate(self, x, sc):
        r = self.rng
        names = []
        while self.chance(self.opt['attrs']):
            names.append(r.choice(ATTRS))
        if self.chance(self.opt['flags']):
            names.append(r.choice(FLAGS))
        names = sorted(set(names))
        r.shuffle(names)
        x['attrs'] = []
        for n in names:
            ps = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                if self.chance(.5) or n in FLAGS:
                    if not ps or ps[-1]['o'] != 'text':
                        ps.append(at(self.raw(3).replace('\\', '') or 'a'))
                else:
                    ps.append(ae(self.attr_e(sc)))
            x['attrs'].append({'n': n, 'ps': ps})
        if self.chance(self.opt['pyattrs']):
            free = [n for n in ATTRS + FLAGS[:4] if n not in names]
            ks = r.sample(free, r.choice([0, 1, 2, 3]))
            items = [(k, self.e(sc, 'any', 1)) for k in ks]
            x['pyattrs'] = D(items, r.choice([0, 1, 2])) if self.chance(.9) else NONE
            given = self.opt.get('mapping')
            if given is not None and not set(given['k']) & set(names) and self.chance(.4):
                x['pyattrs'] = V('opts')
        if self.chance(self.opt['strip']):
            x['strip'] = B(True) if self.chance(.4) else self.cond(sc)
        if self.chance(self.opt['content']):
            x['content'] = self.e(sc, 'any')
            x['kids'] = []

    def attr_e(self, sc):
        if sc.fns and self.chance(self.opt['attrcalls']):
            return self.fncall(sc) or self.e(sc, 'any')
        return self.e(sc, 'any')

    def k_el(self, sc, d):
        return [self.element(sc, d)]

    def k_void(self, sc, d):
        x = self.element(sc, d, [], self.rng.choice(VOID))
        x['content'] = NO
        return [x]

    def k_script(self, sc, d):
        x = el(self.rng.choice(['script', 'style']))
        kids = []
        for _ in range(self.rng.randint(0, 3)):
            if self.chance(.6):
                if not kids or kids[-1]['op'] != 'text':
                    kids.append(self.protected(kids))
            else:
                kids.append(expr(self.e(sc, 'any')))
        x['kids'] = kids
        if self.chance(self.opt['content']):
            x['kids'] = []
            x['content'] = self.e(sc, 'any')
        return [x]

    def k_nop(self, sc, d):
        return [nop(self.body(sc, d))]

    def k_if(self, sc, d):
        out = [self.wrap(sc, d, self.body(sc, d), d_if(self.cond(sc)))]
        if self.chance(self.opt['elses']):
            out.append(self.wrap(sc, d, self.body(sc, d), d_else()))
        return out

    def k_for(self, sc, d):
        s = sc.child()
        if self.chance(.2):
            e = self.atom(sc, 'pairs')
            vs_ = [self.name(s, 'str'), self.name(s, 'int')]
            if vs_[0] == vs_[1]:
                vs_[1] += 'b'
            s.bind(vs_[0], 'str')
            s.bind(vs_[1], 'int')
        else:
            e = self.e(sc, 'strs')
            vs_ = [self.name(s, 'str')]
            s.bind(vs_[0], 'str')
        return [self.wrap(s, d, self.nodes(s, d), d_for(vs_, e))]

    def k_switch(self, sc, d):
        t = self.rng.choice(['int', 'str', 'bool', 'mixed'])
        e = lambda n: self.mixed(sc) if t == 'mixed' else self.e(sc, t, n)
        kids = []
        cases = []
        for _ in range(self.rng.randint(1, 3)):
            cases.append(self.wrap(sc, d, self.body(sc, d), d_case(e(1))))
        if self.chance(.5):
            cases.append(self.wrap(sc, d, self.body(sc, d), d_else()))
        for c in cases:
            if self.kind == 'xml' and self.chance(.5):
                kids.append(text(self.rng.choice(BLANKS)))
            kids.append(c)
        if self.kind == 'xml' and self.chance(.5):
            kids.append(text(self.rng.choice(BLANKS)))
        return [nop(kids, d_switch(e(2)))]

    def bindings(self, s):
        bs = []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            t = self.rng.choice(['str', 'int', 'bool', 'any'])
            n = self.name(s, t)
            bs.append((n, self.e(s, t)))
            s.bind(n, t)
        return bs

    def k_with(self, sc, d):
        s = sc.child()
        bs = self.bindings(s)
        x = self.wrap(s, d, self.nodes(s, d), d_with(*bs))
        return [x]

    def k_replace(self, sc, d):
        return [self.wrap(sc, d, self.body(sc, d) if self.chance(.3) else [], d_replace(self.e(sc, 'any')))]

    def k_combo(self, sc, d):
        """Several directives on one element."""
        dirs = []
        s = sc.child()
        if self.chance(.4):
            n = self.name(s, 'str')
            dirs.append(d_for([n], self.e(s, 'strs')))
            s.bind(n, 'str')
        if self.chance(.5):
            dirs.append(d_if(self.cond(s)))
        if self.chance(.5):
            dirs.append(d_with(*self.bindings(s)))
        if self.chance(.2):
            dirs.append(d_replace(self.e(s, 'any')))
        x = self.element(s, d)
        self.rng.shuffle(dirs)
        x['dirs'] = dirs
        return [x]

    def k_call(self, sc, d):
        c = self.fncall(sc)
        return [expr(c)] if c else self.k_expr(sc, d)

    def k_localdef(self, sc, d):
        if not sc.infn:
            return self.k_text(sc, d)
        f, x = self.define(sc, d)
        sc.fns = [g for g in sc.fns] + [f]
        return [x, expr(self.callfn(sc, f) or S('q'))]

    def k_calldir(self, sc, d):
        """<py:call>: hand the body to a function that takes one."""
        takers = [f for f in sc.fns if f.params and f.params[0][1] == 'fn']
        if not takers:
            return self.k_text(sc, d)
        f = self.rng.choice(takers)
        n = self.rng.choice(['arg', 'q'])
        more = self.chance(.3)
        s = sc.function([(n, 'str')] + ([('opt', 'str')] if more else []))
        s.infn = sc.infn
        kids = self.nodes(s, d)
        args, kw = self.arguments(sc, f.params[1:])
        args = [CALLER] + args
        e = MCall(f.tpl, f.name, *args) if f.tpl else Call(f.name, *args)
        if kw:
            e['kn'] = [n for n, _ in kw]
            e['ka'] = [x for _, x in kw]
        ps = [n] + ([param('opt', self.value('str'))] if more else [])
        return [nop(kids, d_call(e, *ps))]

    def signature(self, taker=None):
        self.n += 1
        ps = []
        taker = self.chance(.3) if taker is None else taker
        if taker:
            ps.append(('body', 'fn', None))
        dflt = False
        for i in range(self.rng.choice([0, 1, 1, 2])):
            t = self.rng.choice(['str', 'int', 'any'])
            v = None
            if dflt or self.chance(.3):
                dflt = True
                v = self.value('str' if t == 'any' else t)
            ps.append((self.rng.choice(['p', 'q', 'x', 'data']) + str(i), t, v))
        if self.chance(.2):
            t = self.rng.choice(['str', 'int'])
            ps.append(('ko1', t, self.value(t) if self.chance(.6) else None))
        if self.chance(self.opt['recursion']) and not dflt and not (ps and ps[-1][0] == 'ko1'):
            ps.append(('rn', 'nat', vi(1) if self.chance(.3) else None))
        return Fn('f%d' % self.n, ps, self.n)

    def define(self, sc, d, f=None, fns=None):
        f = f or self.signature()
        s = sc.function([(n, t) for n, t, v in f.params])
        if fns is not None:
            s.fns = fns
        s.fns = [g for g in s.fns if g.name != f.name]
        # a parameter hides a function of that name
        for n, t, v in f.params:
            s.fns = [g for g in s.fns if g.name != n]
        kids = self.nodes(s, d)
        if f.params and f.params[0][1] == 'fn':
            for _ in range(self.rng.choice([1, 1, 2])):
                kids.insert(self.rng.randint(0, len(kids)), expr(Call('body', self.e(s2(s), 'str', 1))))
            kids = merge(kids)
        if ('rn', 'nat') in [p[:2] for p in f.params]:
            # calls itself, up to twice
            args = [V(n) if t in ('fn', 'str', 'int', 'any') else Bin('add', V('rn'), I(-1)) for n, t, v in f.params]
            again = nop([expr(Call(f.name, *args))], d_if(Bin('lt', I(0), V('rn'))))
            kids.insert(self.rng.randint(0, len(kids)), again)
            kids = merge(kids)
        ps = [param(n, v, n.startswith('ko')) for n, t, v in f.params]
        x = nop(kids, d_def(f.name, *ps))
        return f, x

    # -- templates ---------------------------------------------------------
    def context(self, only=None):
        ctx, sc = [], Scope()
        types = ['str', 'str', 'int', 'bool', 'bool', 'strs', 'strs', 'pairs', 'any', 'any']
        for n, t in zip(NAMES, types):
            ctx.append((n, self.value(t)))
            sc.vars[n] = t
        if self.chance(self.opt['builtins']):
            # names that Python has already
            for n in self.rng.sample(['id', 'max', 'filter', 'input', 'type', 'hash', 'vars', 'format', 'range', 'object'], 3):
                t = self.rng.choice(['str', 'int', 'bool', 'any'])
                ctx.append((n, self.value(t)))
                sc.vars[n] = t
        if self.chance(self.opt['pyattrs']):
            self.opt['mapping'] = self.value('dict')
            ctx.append(('opts', self.opt['mapping']))
        return ctx, sc

    def root(self, sc, d=None, funs=0, takers=None):
        """Root node(s) of a template; `funs` template level functions."""
        d = self.opt['depth'] if d is None else d
        sigs = [self.signature() for _ in range(funs)]
        s = sc.child()
        s.fns = sc.fns + sigs
        self.tops = [f.name for f in sigs]
        self.pre = []
        if self.kind == 'xml' and self.chance(.08):
            # code before the root element
            self.pre = self.k_code(s, d) if self.chance(.5) else self.k_py(s, d)
        kids = self.nodes(s, d)
        outer = Scope(sc.vars, sc.fns)
        for i, f in enumerate(sigs):
            _, x = self.define(outer, d - 1, f, fns=sc.fns + sigs[i + 1:])
            kids.insert(self.rng.randint(0, len(kids)), x)
        kids = merge(kids)
        return kids, sigs


def s2(s):
    """The names that are certainly bound at the start of a function."""
    c = Scope(dict((n, t) for n, t in s.vars.items() if t != 'fn'), s.fns)
    return c


def merge(kids):
    """No element may come between an if and its else."""
    out = []
    for x in kids:
        if x['op'] == 'text' and out and out[-1]['op'] == 'text':
            continue
        out.append(x)
    return out


def fix_else(kids):
    """Drops an else that lost its if."""
    out = []
    cond = False
    for x in kids:
        if is_dir(x, 'else'):
            if not cond:
                continue
            cond = False
        elif is_dir(x, 'if') and x['op'] == 'el':
            cond = True
        else:
            cond = False
        if x['op'] == 'text' and out and out[-1]['op'] == 'text':
            continue
        out.append(x)
    return out


def tidy(nodes, inswitch=False):
    if not inswitch:
        nodes[:] = fix_else(nodes)
    for n in nodes:
        if 'kids' in n:
            tidy(n['kids'], is_dir(n, 'switch'))
    return nodes


def xml_tpl(name, kids, rng, root=None, **kw):
    """Wraps nodes in one root element."""
    r = el(root or rng.choice(['div', 'html', 'root']), tidy(kids)) if root != '' else nop(tidy(kids))
    return tpl(name, [r], **kw)
