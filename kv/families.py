"""Families of random jobs, by the part of the language they stress."""
from .gen import *

MODES = ['', 'html', 'html5', 'xml']


def single(rng, weights=None, kind=None, funs=None, tr=None, tplopts=None, modes=MODES, **opt):
    """One template with everything in it."""
    kind = kind or 'xml'
    g = Gen(rng, kind, dict(dict(call=1, localdef=.4, calldir=.5, script=.2), **(weights or {})), **opt)
    ctx, sc = g.context()
    mod = module_level(g, sc)
    kids, _ = g.root(sc, funs=rng.choice([0, 1, 2, 3]) if funs is None else funs)
    for x in mod:
        kids.insert(rng.randint(0, len(kids)), x)
    gl = [(x['n'], x['_v']) for x in mod]
    if kind == 'xml':
        t = xml_tpl('t.html', kids, rng, **dict(dict(
            mode=rng.choice(modes), strip=rng.random() < .2, cdata_scripts=rng.random() < .8), **(tplopts or {})))
        t['root'][:0] = g.pre
    else:
        t = tpl('t.txt', tidy(kids), kind='text', esc=rng.random() < .3)
    t['globals'] = [{'n': n, 'v': v} for n, v in gl]
    return job([t], ctx, tr=tr or rng.choice(['id', 'brk']))


def module_level(g, sc):
    """<?py %name = value?>: names the whole template sees."""
    out = []
    while g.rng.random() < .15:
        t = g.rng.choice(['str', 'int', 'bool'])
        n = 'mod%d' % len(out)
        v = g.value(t)
        out.append({'op': 'modpy', 'n': n, 'e': value_expr(v), '_v': v})
        sc.vars[n] = t
    return out


DTDS = [
    ('html5', '<!DOCTYPE html>'), ('html5', '<!DOCTYPE html>'),
    ('html4strict', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">'),
    ('html4transitional', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" '
     '"http://www.w3.org/TR/html4/loose.dtd">'),
    ('html4frameset', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Frameset//EN" '
     '"http://www.w3.org/TR/html4/frameset.dtd">'),
    ('xhtml1strict', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">'),
    ('xhtml1transitional', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">'),
    ('xhtml11', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1//EN" "http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd">'),
    ('', '<!DOCTYPE note SYSTEM "note.dtd">')]


def dtd(rng):
    """A document type, in one of the ways it can be written."""
    k, s = rng.choice(DTDS)
    parts = s.split('"')
    for i in range(0, len(parts), 2):
        parts[i] = ''.join(rng.choice(['  ', '\n', '\t']) if c == ' ' and rng.random() < .15 else c
                           for c in parts[i])
        if rng.random() < .2:
            parts[i] = parts[i].replace('html', 'HTML')
    return {'dtdkey': k, 'dtd': '"'.join(parts)}


def doctypes(rng, make):
    """A job with document types on some of its templates."""
    j = make(rng)
    for t in j['tpls']:
        if t['kind'] == 'xml' and rng.random() < .7:
            t.update(dtd(rng))
            if j.get('via') != 'file' and rng.random() < .5:
                t['mode'] = ''
        if t['kind'] == 'xml' and j.get('via') != 'file' and rng.random() < .3:
            t['auto'] = ['nav']
            if not t['ext'] and rng.random() < .5:
                t['root'][-1]['kids'].append(el('nav', [text('n')]))
    return j


def small(rng, kind='xml', opt={}, **kw):
    return Gen(rng, kind, dict(dict(call=1, calldir=.6, script=0, comment=.2, cdata=.2, void=.2), **kw),
               **dict(dict(depth=2, width=3), **opt))


def inheritance(rng, kind=None, levels=None):
    kind = kind or rng.choice(['xml', 'xml', 'xml', 'text'])
    ext = 'txt' if kind == 'text' else 'html'
    levels = levels or rng.choice([2, 2, 3, 3, 4])
    g = small(rng, kind, dict(recursion=0, lookups=.1))
    g.w['err'] = 0
    ctx, sc = g.context()
    names = ['l%d.%s' % (i, ext) for i in range(levels)]    # 0: the most derived
    blocks = ['b%d' % i for i in range(rng.choice([1, 2, 2, 3]))]
    sigs = []
    for i in range(rng.choice([0, 1, 2, 3])):
        f = g.signature()
        f.name = 'fn%d' % i
        sigs.append(f)
    g.tops = [f.name for f in sigs]
    has = [set(f.name for f in sigs if rng.random() < .5) for _ in range(levels)]
    hasb = [set(b for b in blocks if rng.random() < .5) for _ in range(levels)]
    top = levels - 1
    hasb[top] = set(b for b in blocks if rng.random() < .85)
    for f in sigs:      # every function exists somewhere at or above the base
        if not any(f.name in h for h in has):
            has[rng.randrange(levels)].add(f.name)

    def visible(l, m, f):
        """Is m.f defined, seen from level l?"""
        if m in (None, 'self'):
            return any(f.name in h for h in has)
        if m == 'local':
            return any(f.name in has[k] for k in range(l, levels))
        if m == 'parent':
            return l < top and any(f.name in has[k] for k in range(l + 1, levels))
        if m == 'child':
            return l > 0 and any(f.name in has[k] for k in range(l - 1, levels))

    def scope(l, after=-1, own=None):
        s = sc.child()
        for i, f in enumerate(sigs):
            if i > after:
                for m in (None, 'self', 'local', 'parent', 'child'):
                    if visible(l, m, f):
                        s.fns.append(Fn(f.name, f.params, f.order, m))
            elif i == own and visible(l, 'parent', f):
                s.fns.append(Fn(f.name, f.params, f.order, 'parent'))
        return s

    def defs(l):
        out = []
        for i, f in enumerate(sigs):
            if f.name in has[l]:
                s = scope(l, i, i)
                _, x = g.define(Scope(sc.vars), 2, f, fns=s.fns)
                if rng.random() < .4 and visible(l, 'parent', f) and f.params[:1] != [('body', 'fn', None)]:
                    c = g.callfn(Scope(dict((n, t) for n, t, v in f.params)), Fn(f.name, f.params, 0, 'parent'))
                    if c:
                        x['kids'].append(expr(c))
                out.append(x)
        return out

    def block(l, b, nested=()):
        s = scope(l)
        fn = s.function([])
        fn.infn = False
        fn.fns = s.fns
        kids = g.nodes(fn, 2)
        if l < top and any(b in hasb[k] for k in range(l + 1, levels)) and rng.random() < .6:
            kids.insert(rng.randint(0, len(kids)), expr(Call('parent_block')))
        for x in nested:
            kids.insert(rng.randint(0, len(kids)), x)
        tag = rng.choice(TAGS) if kind == 'xml' and rng.random() < .5 else ''
        return el(tag, merge(kids), dirs=[d_block(b)])

    tpls = []
    for l in range(levels):
        if l == top:
            order = [b for b in blocks if b in hasb[l]]
            nested = []
            if len(order) > 1 and rng.random() < .3:
                nested = [block(l, order.pop())]
            kids = []
            for i, b in enumerate(order):
                kids += [x for x in g.nodes(scope(l), 2)]
                kids.append(block(l, b, nested if i == 0 else ()))
            kids += g.nodes(scope(l), 2)
            for x in defs(l):
                kids.insert(rng.randint(0, len(kids)), x)
            if kind == 'xml':
                t = xml_tpl(names[l], merge(kids), rng, mode=rng.choice(['', 'html', 'xml']),
                            dtd=rng.choice(['', '<!DOCTYPE html>']) and '')
            else:
                t = tpl(names[l], tidy(merge(kids)), kind='text')
        else:
            kids = []
            for x in [block(l, b) for b in sorted(hasb[l])] + defs(l):
                kids.insert(rng.randint(0, len(kids)), x)
            if kind == 'xml':
                spaced = []
                for x in kids:
                    if rng.random() < .4:
                        spaced.append(text('\n'))
                    spaced.append(x)
                kids = spaced
            t = tpl(names[l], [nop(tidy(kids), d_extends(names[l + 1]))], kind=kind,
                    mode=rng.choice(['', 'html', 'xml']) if kind == 'xml' else '')
        tpls.append(t)
    return job(tpls, ctx, tr=rng.choice(['id', 'brk']))


EXTMODE = {'html': 'html', 'xml': '', 'html5': 'html5', 'txt': ''}


def modular(rng, via=None, **opt):
    """Templates that include and import each other."""
    via = via or rng.choice(['mock', 'mock', 'file'])
    g0 = small(rng)
    ctx, sc = g0.context()
    n = rng.choice([2, 3, 4])
    kinds = [rng.choice(['xml', 'xml', 'text']) for _ in range(n)]
    exts = ['txt' if k == 'text' else rng.choice(['html', 'xml', 'html5']) for k in kinds]
    names = ['%s%d.%s' % (rng.choice(['m', 'lib', 'sub/m']), i, e) for i, e in enumerate(exts)]
    sigs = []
    counter = [0]
    for i in range(n):
        fs = []
        for _ in range(rng.choice([0, 1, 2])):
            f = g0.signature()
            if rng.random() < .5:
                f.name = rng.choice(['fa', 'fb'])
                if any(x.name == f.name for x in fs):
                    continue
            fs.append(f)
        sigs.append(fs)
    # template i refers to templates j > i only
    tpls = []
    for i in range(n):
        g = small(rng, kinds[i], dict(dict(lookups=.1), **opt), call=2, calldir=1)
        g.n = 100 * (i + 1)
        g.tops = [f.name for f in sigs[i]]
        head = []
        fns = []
        s = sc.child()
        for j in range(i + 1, n):
            r = rng.random()
            base = names[j].split('/')[-1].rsplit('.', 1)[0]
            if r < .5:
                alias = rng.choice([base, 'al%d' % j])
                head.append(import_(names[j], alias, explicit=alias != base))
                fns += [Fn(f.name, f.params, f.order, alias) for f in sigs[j]]
            elif r < .85:
                head.append(include(names[j], base))
                if rng.random() < .3:
                    fns += [Fn(f.name, f.params, f.order, base) for f in sigs[j]]
        s.fns = fns + sigs[i]
        kids = list(head)
        for _ in range(3):
            kids += g.nodes(s, 3)
        outer = Scope(sc.vars)
        for k, f in enumerate(sigs[i]):
            _, x = g.define(outer, 2, f, fns=sigs[i][k + 1:] + (fns if rng.random() < .5 else []))
            kids.insert(rng.randint(0, len(kids)), x)
        kids = merge(kids)
        opts = dict(kind=kinds[i])
        if kinds[i] == 'xml':
            opts['mode'] = EXTMODE[exts[i]] if via == 'file' else rng.choice(MODES)
            opts['frag'] = i > 0
            t = xml_tpl(names[i], kids, rng, **opts)
        else:
            t = tpl(names[i], tidy(kids), **opts)
        tpls.append(t)
    return job(tpls, ctx, via=via, tr=rng.choice(['id', 'brk']))


def entities(rng, per=40):
    """Jobs that use every named HTML entity, in text and in attributes."""
    from html.entities import html5
    names = sorted(n for n in html5 if n.endswith(';') and html5[n] != '$')
    rng.shuffle(names)
    out = []
    for i in range(0, len(names), per):
        kids = []
        for k, n in enumerate(names[i:i + per]):
            t = text('a%sb' % html5[n])
            t['_src'] = 'a&%sb' % n
            x = el(rng.choice(TAGS), [t])
            if k % 2:
                x['attrs'] = [{'n': 'title', 'ps': [at('c%sd' % html5[n])], '_src': 'c&%sd' % n}]
                if rng.random() < .5:
                    x['kids'] = []
            kids.append(x)
        out.append(job([tpl('t.html', [el('div', kids)], mode=rng.choice(MODES))]))
    return out


def with_context():
    """py:with on a name of the context or of an enclosing function, read before or after it."""
    x = lambda: expr(V('x'))
    w = lambda *kids, v=I(1): el('p', [x()] + list(kids), dirs=[d_with(('x', v))])
    ctx = [('x', vs('c'))]
    one = lambda *kids: job([tpl('t.html', [el('div', list(kids))])], ctx)
    more = Bin('add', V('x'), S('d'))
    inner = lambda *kids: one(nop([nop(list(kids), d_def('g')), expr(Call('g'))], d_def('f', 'x')), expr(Call('f', S('p'))))
    return {'after': [one(w(), x()), one(w(), w(), x()), one(w(w(v=I(2)), x()), x()),
                      one(nop([w(v=V('i')), x()], d_for(['i'], L(I(1), I(2)))), x()),
                      one(w(nop([w(v=I(3)), x()], d_if(B(True)))), x(), nop([x()], d_def('f')), expr(Call('f'))),
                      one(nop([w(), x()], d_def('f')), expr(Call('f')), x(), expr(Call('f'))),
                      one(el('p', [x(), expr(V('y'))], dirs=[d_with(('x', I(1)), ('y', V('x')))]), x()),
                      one(w(), el('i', attrs=[('a', [ae(V('x'))])]))],
            'before': [one(x(), w())],
            'value': [one(w(v=more))],
            'closure': [inner(w(), x()), inner(x(), w()), inner(w(v=more))],
            'only-inside': [one(w()), one(w(), nop([x()], d_def('f')), expr(Call('f')))]}


def with_undefined():
    """A name without a value, read after a py:with that bound it."""
    return {'after': [job([tpl('t.html', [el('div', [el('p', [expr(V('x'))], dirs=[d_with(('x', I(1)))]), expr(V('x'))])])], [])]}


def ill_formed():
    """Output that is not XML."""
    one = lambda *kids: job([tpl('t.html', [el('div', list(kids))], mode='xml')], [])
    return {'attrs': [one(el('p', attrs=[('a', [at('1')])], pyattrs=D([('a', I(2))], 0)))],
            'script': [one(el('script', [text('x ]]> y')]))],
            'cdata': [one(cdata(expr(S(']]')), text('>')))]}


def long_text(rng):
    """More text than the XML parser hands over in one go."""
    def run(n):
        return ''.join(rng.choice(['word ', 'x', u'\xe9', '&', '<b>', '\n', '"', ' ', '1.']) for _ in range(n))[:n]
    kids = [text(rng.choice(['', ' ']) + run(rng.choice([3000, 8191, 8192, 8193, 9000]))), expr(S('!'))]
    if rng.random() < .5:
        kids = [kids[0], el('b', [text('b')])]
    kids.append(text(run(500)))
    if rng.random() < .3:
        kids = [cdata(*kids[:1])]
    ctx = [('big', vs(run(4000)))]
    if rng.random() < .5:
        kids.append(el('p', [expr(V('big'))], attrs=[('title', [ae(V('big'))])]))
    return job([tpl('t.html', [el('div', kids)], mode=rng.choice(MODES), strip=rng.random() < .3)], ctx,
               tr=rng.choice(['id', 'brk']))


def cost(j):
    """About how many steps the machine takes for a job."""
    defs = {}
    ctx = dict((x['n'], x['v']) for x in j['ctx'])
    tpls = dict((t['name'], t) for t in j['tpls'])

    def collect(ns):
        for n in ns:
            for d in n.get('dirs', ()):
                if d['d'] == 'def':
                    defs.setdefault(d['n'], []).append((n, d))
                elif d['d'] == 'block':
                    defs.setdefault('b:' + d['n'], []).append((n, d))
            collect(n.get('kids', ()))

    for t in j['tpls']:
        collect(t['root'])

    def calls(e):
        if isinstance(e, dict):
            if e.get('o') in ('call', 'mcall'):
                yield e['n']
            for k, v in e.items():
                if k not in ('kids', 'dirs', 'attrs'):
                    for x in calls(v):
                        yield x
        elif isinstance(e, list):
            for v in e:
                for x in calls(v):
                    yield x

    def fn(name, body, stack):
        if name == 'body':
            return body
        if name in stack or len(stack) > 8:
            return 1
        worst = 1
        for n, d in defs.get(name, ()):
            k = 2 + many(n.get('kids', ()), body, stack + (name,))
            if any(p['n'] == 'rn' for p in d.get('ps', ())):
                k *= 4
            worst = max(worst, k)
        return worst

    def use(e, body, stack):
        return sum(fn(n, body, stack) for n in calls(e))

    def length(e):
        if e.get('o') == 'list':
            return len(e['a'])
        if e.get('o') == 'var' and ctx.get(e['n'], {}).get('t') == 'list':
            return len(ctx[e['n']]['l'])
        return 3

    def many(ns, body, stack):
        return min(10 ** 9, sum(one(n, body, stack) for n in ns))

    def one(n, body, stack):
        k = 1 + use(n.get('e'), body, stack)
        if n['op'] == 'include':
            return k + many(tpls[n['tpl']]['root'], body, stack + ('i:' + n['tpl'],)) if 'i:' + n['tpl'] not in stack else 1
        if n['op'] not in ('el', 'cdata'):
            return k
        if any(d['d'] == 'def' for d in n.get('dirs', ())):
            return k
        kids = many(n['kids'], body, stack)
        k += 4 + sum(2 + sum(1 + use(p, body, stack) for p in a['ps']) for a in n.get('attrs', ()))
        k += use([n.get(x) for x in ('strip', 'content', 'pyattrs')], body, stack)
        k += kids
        for d in n.get('dirs', ()):
            if d['d'] == 'for':
                k *= max(1, length(d['e']))
            elif d['d'] == 'call':
                k = sum(fn(c, k, stack) for c in calls(d['e']))
            elif d['d'] == 'block':
                k = max(k, fn('b:' + d['n'], body, stack) if 'b:' + d['n'] not in stack else 1)
            k += 1 + use(d, body, stack)
        return k

    return many([n for t in j['tpls'] for n in t['root']], 1, ())
